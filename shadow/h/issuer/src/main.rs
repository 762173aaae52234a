mod authz;
mod content;
mod cred;
mod defer;
mod expiry;
mod multi;
mod names;
mod near;
mod once;
mod shapes;
mod token;
mod util;
mod wide;

fn main() {
    mc::main(|id| {
        let (level, run): (_, fn(&mut mc::Check)) = match id {
            "C20" => ("model_checking", once::c20),
            "C21" => ("exploration", token::c21),
            "C22" => ("exploration", expiry::c22),
            "C23" => ("model_checking", cred::c23),
            "C24" => ("exploration", content::c24),
            "C25" => ("model_checking", defer::c25),
            "C26" => ("exploration", authz::c26),
            "C27" => ("exploration", authz::c27),
            "C28" => ("exploration", authz::c28),
            "C29" => ("model_checking", multi::c29),
            "C30" => ("model_checking", multi::c30),
            "C31" => ("exploration", multi::c31),
            "C32" => ("model_checking", multi::c32),
            _ => return,
        };
        let mut c = mc::Check::new(id, level);
        run(&mut c);
        // the whole exploration again, every request with the optional members
        // that decide nothing
        world::issuer::noise(true);
        c.scope("with members that decide nothing");
        run(&mut c);
        c.rule_too("; all of it twice: with and without the optional and unknown members of the requests that decide nothing (locations, user_hint, wallet_issuer, resource, client assertion, response encryption, event description)");
        c.finish()
    })
}
