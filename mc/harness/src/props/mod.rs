use crate::common::{Scen, Tier};

mod conform;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;
mod p26;
mod p27;

pub const IDS: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27"];

pub fn scenarios(id: &str, tier: Tier) -> Vec<Scen> {
    match id {
        "P01" => p01::scenarios(tier),
        "P02" => p02::scenarios(tier),
        "P03" => p03::scenarios(tier),
        "P04" => p04::scenarios(tier),
        "P05" => p05::scenarios(tier),
        "P06" => p06::scenarios(tier),
        "P07" => p07::scenarios(tier),
        "P08" => p08::scenarios(tier),
        "P09" => p09::scenarios(tier),
        "P10" => p10::scenarios(tier),
        "P11" => p11::scenarios(tier, true),
        "P12" => p11::scenarios(tier, false),
        "P13" => p13::scenarios(tier),
        "P14" => p14::scenarios(tier),
        "P15" => p15::scenarios(tier),
        "P16" => p16::scenarios(tier),
        "P17" => p17::scenarios(tier),
        "P18" => p18::scenarios(tier),
        "P19" => p19::scenarios(tier),
        "P20" => p20::scenarios(tier),
        "P22" => p22::scenarios(tier),
        "P21" => p21::scenarios(tier),
        "P24" => p24::scenarios(tier),
        "P23" => p23::scenarios(tier),
        "P25" => p25::scenarios(tier),
        "P26" => p26::scenarios(tier),
        "P27" => p27::scenarios(tier),
        _ => vec![],
    }
}

/// Removes what a check leaves behind that takes space.
pub fn cleanup(id: &str, tier: Tier) {
    if id == "P16" {
        p16::cleanup(tier);
    }
}

pub fn assumptions(id: &str) -> Vec<String> {
    if id == "P16" {
        return vec![
            "The toolchain and the cached third-party crates are those of this sandbox; other targets and linkers are not covered.".into(),
            "Third-party crates are compiled without optimization.".into(),
        ];
    }
    let mut v: Vec<String> = vec![
        "The code under test is /repo's working tree compiled against controlled stand-ins of std::sync, dashmap, crossbeam, tokio, rand, backoff and lapin; these are assumed to behave like the originals.".into(),
        "Executions are sequentially consistent interleavings of the operations on those primitives.".into(),
        "Timers fire only when no task can run, unless a scenario says otherwise.".into(),
    ];
    if matches!(id, "P13" | "P14" | "P15" | "P21" | "P22" | "P23" | "P26" | "P01" | "P02" | "P03" | "P04" | "P05" | "P06") {
        v.push("The AMQP broker is a model of the AMQP 0-9-1 rules, not RabbitMQ itself.".into());
    }
    v
}
