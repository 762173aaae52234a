mod accept;
mod members;
mod near;
mod request;
mod wide;

fn main() {
    mc::main(|id| {
        let (level, run): (_, fn(&mut mc::Check)) = match id {
            "C40" => ("exploration", accept::c40),
            "C41" => ("model_checking", accept::c41),
            "C42" => ("exploration", request::c42),
            _ => return,
        };
        let mut c = mc::Check::new(id, level);
        run(&mut c);
        // the whole exploration again, with the members that decide nothing
        world::verifier::noise(true);
        c.scope("with members that decide nothing");
        run(&mut c);
        c.rule_too("; all of it twice: with and without the optional and unknown members of requests, descriptors, submissions and credentials that decide nothing");
        c.finish()
    })
}
