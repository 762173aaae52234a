mod errs;
mod lookups;
mod mdl;
mod msgs;
mod status;
mod vc;

fn main() {
    mc::main(|id| match id {
        "C12" => msgs::c12(),
        "C13" => errs::c13(),
        "C14" => lookups::c14(),
        "C15" => status::c15(),
        "C16" => mdl::c16(),
        "C17" => vc::c17(),
        "C18" => vc::c18(),
        _ => {}
    })
}
