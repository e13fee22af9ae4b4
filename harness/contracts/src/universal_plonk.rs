include!(concat!(env!("OUT_DIR"), "/universal_plonk.rs"));
