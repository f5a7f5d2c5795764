//! C24, C25: configuration, identifiers, membership values and serialisation against references.

mod conf;
mod ids;
mod member;
mod ser;

fn main() {
    common::main(&[
        ("args", 6, conf::args_case),
        ("validate", 4, conf::validate_case),
        ("timeouts", 1, conf::timeouts_case),
        ("order", 4, ids::order_case),
        ("logid", 2, ids::logid_case),
        ("membership", 4, member::case),
        ("serde", 6, ser::case),
    ])
}
