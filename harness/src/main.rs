#[macro_use]
mod fw;
#[macro_use]
mod oneof;
mod checks;
mod gen;
mod lit;
#[path = "../../harness-nostd/src/probe.rs"]
mod probe;
mod refmodel;
mod srv;
mod tok;

use checks::*;
use fw::CheckDef;

const CHECKS: &[CheckDef] = &[
    CheckDef { id: "C01", run: codec::c01, assumptions: &[], guided: &["roundtrip"] },
    CheckDef { id: "C02", run: codec::c02, assumptions: &[], guided: &["sizes"] },
    CheckDef { id: "C03", run: codec::c03, assumptions: &[], guided: &["parse", "parse_bytes"] },
    CheckDef { id: "C04", run: codec::c04, assumptions: &[], guided: &["extension", "extension_bytes"] },
    CheckDef { id: "C05", run: codec::c05, assumptions: &[], guided: &["scripts"] },
    CheckDef { id: "C06", run: codec::c06, assumptions: &[], guided: &["injective", "render_bytes"] },
    CheckDef { id: "C07", run: values::c07, assumptions: &[], guided: &["values"] },
    CheckDef { id: "C08", run: values::c08, assumptions: &[], guided: &["near_misses", "decode_bytes"] },
    CheckDef { id: "C09", run: values::c09, assumptions: &[], guided: &["near_misses", "identifier_bytes"] },
    CheckDef { id: "C10", run: messages::c10, assumptions: &[], guided: &["roundtrip"] },
    CheckDef { id: "C11", run: messages::c11, assumptions: &[], guided: &["decode", "decode_bytes"] },
    CheckDef { id: "C12", run: ids::c12, assumptions: &[], guided: &["pairs"] },
    CheckDef { id: "C13", run: ids::c13, assumptions: &[], guided: &["selectors", "identities"] },
    CheckDef { id: "C14", run: ids::c14, assumptions: &[], guided: &[] },
    CheckDef { id: "C15", run: client_env::c15, assumptions: &[], guided: &[] },
    CheckDef { id: "C16", run: server::c16, assumptions: &[], guided: &["memory"] },
    CheckDef { id: "C17", run: server::c17, assumptions: &[], guided: &["memory"] },
    CheckDef { id: "C18", run: server::c18, assumptions: &[], guided: &["memory"] },
    CheckDef { id: "C19", run: server::c19, assumptions: &[], guided: &["memory"] },
    CheckDef { id: "C20", run: server::c20, assumptions: &[], guided: &["memory"] },
    CheckDef { id: "C21", run: server::c21, assumptions: &[], guided: &["memory"] },
    CheckDef { id: "C22", run: delivery::c22, assumptions: &[], guided: &[] },
    CheckDef { id: "C23", run: broadcasts::c23, assumptions: &[], guided: &[] },
    CheckDef { id: "C24", run: lifecycle::c24, assumptions: &[], guided: &[] },
    CheckDef { id: "C25", run: lifecycle::c25, assumptions: &[], guided: &[] },
    CheckDef { id: "C26", run: hostile::c26, assumptions: &[], guided: &["memory", "stream_bytes"] },
    CheckDef { id: "C27", run: client_env::c27, assumptions: &[], guided: &[] },
    CheckDef { id: "C28", run: example::c28, assumptions: &[], guided: &[] },
    CheckDef { id: "C29", run: nostd::c29, assumptions: &[], guided: &[] },
    CheckDef { id: "C30", run: codec::c30, assumptions: &[], guided: &["parse_ranges", "decode_ranges", "encode_fills"] },
    CheckDef { id: "C31", run: routing::c31, assumptions: &[], guided: &["answers"] },
    CheckDef { id: "C32", run: logs::c32, assumptions: &[], guided: &["notifications", "errors"] },
    CheckDef { id: "C33", run: logs::c33, assumptions: &[], guided: &["scripts"] },
    CheckDef { id: "C34", run: resources::c34, assumptions: &[], guided: &[] },
];

#[global_allocator]
static ALLOCATOR: resources::Counting = resources::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--secrets" {
        return ids::print_secrets(args[2].parse().unwrap());
    }
    std::process::exit(fw::main_with(CHECKS));
}
