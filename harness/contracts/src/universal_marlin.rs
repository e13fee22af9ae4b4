include!(concat!(env!("OUT_DIR"), "/universal_marlin.rs"));
