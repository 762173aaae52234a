//! Checks of `vercre-core`.
mod quota;
mod random;
mod url;

fn main() {
    mc::main(|id| match id {
        "C01" => url::round_trip(),
        "C02" => url::wire(),
        "C03" => random::identifiers(),
        "C04" => random::pkce(),
        "C05" => quota::run(),
        _ => {}
    })
}
