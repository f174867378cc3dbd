//! Thin wrappers around the crate under test.
//!
//! Everything generic (serde implementations, the sidereal time callback) is instantiated here, so
//! that it is compiled with the simulator's call-backs like the rest of the crate under test.
pub mod bin;
pub use sgp4;
use sgp4::*;

#[inline(never)]
pub fn from_tle(name: Option<String>, l1: &[u8], l2: &[u8]) -> Result<Elements, TleError> {
    Elements::from_tle(name, l1, l2)
}

#[inline(never)]
pub fn parse_2les(text: &str) -> Result<Vec<Elements>, TleError> {
    sgp4::parse_2les(text)
}

#[inline(never)]
pub fn parse_3les(text: &str) -> Result<Vec<Elements>, TleError> {
    sgp4::parse_3les(text)
}

#[inline(never)]
pub fn omm_one_slice(text: &[u8]) -> Result<Elements, serde_json::Error> {
    serde_json::from_slice(text)
}

#[inline(never)]
pub fn omm_list_slice(text: &[u8]) -> Result<Vec<Elements>, serde_json::Error> {
    serde_json::from_slice(text)
}

#[inline(never)]
pub fn omm_one_str(text: &str) -> Result<Elements, serde_json::Error> {
    serde_json::from_str(text)
}

#[inline(never)]
pub fn omm_list_str(text: &str) -> Result<Vec<Elements>, serde_json::Error> {
    serde_json::from_str(text)
}

#[inline(never)]
pub fn omm_one_reader(reader: &mut dyn std::io::Read) -> Result<Elements, serde_json::Error> {
    serde_json::from_reader(reader)
}

#[inline(never)]
pub fn omm_list_reader(reader: &mut dyn std::io::Read) -> Result<Vec<Elements>, serde_json::Error> {
    serde_json::from_reader(reader)
}

#[inline(never)]
pub fn omm_one_value(value: serde_json::Value) -> Result<Elements, serde_json::Error> {
    serde_json::from_value(value)
}

#[inline(never)]
pub fn new_with_callback(
    geopotential: Geopotential,
    callback: &dyn Fn(f64) -> f64,
    epoch: f64,
    drag_term: f64,
    orbit: Orbit,
) -> Result<Constants, OutOfRange> {
    Constants::new(geopotential, callback, epoch, drag_term, orbit).map_err(|error| OutOfRange(format!("{error:?}")))
}

/// Debug form of the (not re-exported) initialisation error.
#[derive(Debug, Clone)]
pub struct OutOfRange(pub String);

#[inline(never)]
pub fn from_elements(elements: &Elements) -> Result<Constants, String> {
    Constants::from_elements(elements).map_err(|error| format!("{error:?}"))
}

#[inline(never)]
pub fn from_elements_afspc(elements: &Elements) -> Result<Constants, String> {
    Constants::from_elements_afspc_compatibility_mode(elements).map_err(|error| format!("{error:?}"))
}

#[inline(never)]
pub fn propagate(constants: &Constants, t: f64, afspc: bool) -> Result<Prediction, Error> {
    if afspc {
        constants.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t))
    } else {
        constants.propagate(MinutesSinceEpoch(t))
    }
}

#[inline(never)]
pub fn propagate_from_state(
    constants: &Constants,
    t: f64,
    state: Option<&mut ResonanceState>,
    afspc: bool,
) -> Result<Prediction, Error> {
    constants.propagate_from_state(MinutesSinceEpoch(t), state, afspc)
}

// Storage formats -------------------------------------------------------------------------------

macro_rules! storage {
    ($type:ty, $to_json:ident, $to_value:ident, $to_bin:ident, $from_json:ident, $from_reader:ident, $from_value:ident, $from_bin:ident) => {
        #[inline(never)]
        pub fn $to_json(value: &$type) -> Result<String, String> {
            serde_json::to_string(value).map_err(|error| error.to_string())
        }
        #[inline(never)]
        pub fn $to_value(value: &$type) -> Result<serde_json::Value, String> {
            serde_json::to_value(value).map_err(|error| error.to_string())
        }
        #[inline(never)]
        pub fn $to_bin(value: &$type) -> Result<Vec<u8>, String> {
            bin::to_bytes(value).map_err(|error| error.0)
        }
        #[inline(never)]
        pub fn $from_json(text: &[u8]) -> Result<$type, String> {
            serde_json::from_slice(text).map_err(|error| error.to_string())
        }
        #[inline(never)]
        pub fn $from_reader(reader: &mut dyn std::io::Read) -> Result<$type, String> {
            serde_json::from_reader(reader).map_err(|error| error.to_string())
        }
        #[inline(never)]
        pub fn $from_value(value: serde_json::Value) -> Result<$type, String> {
            serde_json::from_value(value).map_err(|error| error.to_string())
        }
        #[inline(never)]
        pub fn $from_bin(bytes: &[u8]) -> Result<$type, String> {
            bin::from_bytes(bytes).map_err(|error| error.0)
        }
    };
}

storage!(Constants, constants_to_json, constants_to_value, constants_to_bin, constants_from_json, constants_from_reader, constants_from_value, constants_from_bin);
storage!(Elements, elements_to_json, elements_to_value, elements_to_bin, elements_from_json, elements_from_reader, elements_from_value, elements_from_bin);
storage!(Orbit, orbit_to_json, orbit_to_value, orbit_to_bin, orbit_from_json, orbit_from_reader, orbit_from_value, orbit_from_bin);
storage!(Geopotential, geopotential_to_json, geopotential_to_value, geopotential_to_bin, geopotential_from_json, geopotential_from_reader, geopotential_from_value, geopotential_from_bin);
storage!(Prediction, prediction_to_json, prediction_to_value, prediction_to_bin, prediction_from_json, prediction_from_reader, prediction_from_value, prediction_from_bin);

// Calls without any allocation of their own -------------------------------------------------------

#[inline(never)]
pub fn new_plain(
    geopotential: Geopotential,
    callback: &dyn Fn(f64) -> f64,
    epoch: f64,
    drag_term: f64,
    orbit: Orbit,
) -> Result<Constants, OutOfRangeEpochEccentricity> {
    Constants::new(geopotential, callback, epoch, drag_term, orbit)
}

#[inline(never)]
pub fn from_elements_plain(elements: &Elements, afspc: bool) -> Result<Constants, ElementsError> {
    if afspc {
        Constants::from_elements_afspc_compatibility_mode(elements)
    } else {
        Constants::from_elements(elements)
    }
}

#[inline(never)]
pub fn list_to_json(list: &Vec<Elements>) -> Result<String, String> {
    serde_json::to_string(list).map_err(|error| error.to_string())
}

// Printing and storing into a sink that may fail -----------------------------------------------------

#[inline(never)]
pub fn print(value: &dyn std::fmt::Display, sink: &mut dyn std::fmt::Write) -> std::fmt::Result {
    write!(sink, "{value}")
}

#[inline(never)]
pub fn print_debug(value: &dyn std::fmt::Debug, pretty: bool, sink: &mut dyn std::fmt::Write) -> std::fmt::Result {
    if pretty {
        write!(sink, "{value:#?}")
    } else {
        write!(sink, "{value:?}")
    }
}

#[inline(never)]
pub fn print_io(value: &dyn std::fmt::Display, sink: &mut dyn std::io::Write) -> std::io::Result<()> {
    write!(sink, "{value}")
}

macro_rules! store_into {
    ($type:ty, $json:ident, $bin:ident) => {
        #[inline(never)]
        pub fn $json(value: &$type, pretty: bool, sink: &mut dyn std::io::Write) -> Result<(), String> {
            if pretty {
                serde_json::to_writer_pretty(sink, value).map_err(|error| error.to_string())
            } else {
                serde_json::to_writer(sink, value).map_err(|error| error.to_string())
            }
        }
        #[inline(never)]
        pub fn $bin(value: &$type, room: usize) -> (Result<(), String>, Vec<u8>) {
            let (result, bytes) = bin::to_bounded(value, room);
            (result.map_err(|error| error.0), bytes)
        }
    };
}

store_into!(Constants, constants_into, constants_bounded);
store_into!(Elements, elements_into, elements_bounded);
store_into!(Orbit, orbit_into, orbit_bounded);
store_into!(Geopotential, geopotential_into, geopotential_bounded);
store_into!(Prediction, prediction_into, prediction_bounded);
