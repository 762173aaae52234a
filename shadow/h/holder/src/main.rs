mod e2e;
mod flow;
mod hostile;
mod present;
mod util;
mod names;
mod wide;

fn main() {
    mc::main(|id| match id {
        "C50" => flow::c50(),
        "C51" => hostile::c51(),
        "C52" => present::c52(),
        "C53" => e2e::c53(),
        "C54" => e2e::c54(),
        _ => {}
    })
}
