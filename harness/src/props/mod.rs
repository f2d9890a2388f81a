use crate::engine::Facet;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod drv;
mod hier;
mod hist;
mod inst;
mod procmodel;
mod wide;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"];

pub fn facets(prop: &str) -> Option<Vec<Facet>> {
    Some(match prop {
        "C01" => c01::facets(),
        "C02" => c02::facets(),
        "C03" => c03::facets(),
        "C04" => c04::facets(),
        "C05" => c05::facets(),
        "C06" => c06::facets(),
        "C07" => c07::facets(),
        "C08" => c08::facets(),
        "C09" => c09::facets(),
        "C10" => c10::facets(),
        "C11" => c11::facets(),
        "C12" => c12::facets(),
        "C13" => c13::facets(),
        "C14" => c14::facets(),
        "C15" => c15::facets(),
        "C16" => c16::facets(),
        "C17" => c17::facets(),
        "C18" => c18::facets(),
        "C19" => c19::facets(),
        "C20" => c20::facets(),
        "C21" => c21::facets(),
        "C22" => c22::facets(),
        "C23" => c23::facets(),
        "C24" => c24::facets(),
        "C25" => c25::facets(),
        "C26" => c26::facets(),
        "C27" => c27::facets(),
        "C28" => c28::facets(),
        "C29" => c29::facets(),
        _ => return None,
    })
}

pub fn assumptions(_prop: &str) -> Vec<String> {
    vec![
        "std::time::Instant and thread::sleep reach the C library's clock_gettime/nanosleep/clock_nanosleep, which the harness replaces".into(),
        "crossbeam-channel, exponential-decay-histogram, futures, json and the Rust standard library behave as documented".into(),
    ]
}
