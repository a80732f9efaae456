mod arc;
mod blocks;
mod codec;
mod filters;
mod fw;
mod hostile;
mod liblzma;
mod reading;
mod reflzma;
mod secrecy;
mod streams;
mod trees;
mod util;
mod writing;
mod writing2;
mod z7;

#[global_allocator]
static ALLOC: fw::CountingAlloc = fw::CountingAlloc;

fn main() {
    if trees::jail() {
        return;
    }
    fw::main_with(&[
        ("C03", codec::c03),
        ("C04", codec::c04),
        ("C05", codec::c05),
        ("C06", codec::c06),
        ("C01", writing::c01),
        ("C02", writing::c02),
        ("C14", writing::c14),
        ("C07", filters::c07),
        ("C08", filters::c08),
        ("C09", secrecy::c09),
        ("C10", secrecy::c10),
        ("C11", secrecy::c11),
        ("C12", hostile::c12),
        ("C13", streams::c13),
        ("C15", reading::c15),
        ("C16", blocks::c16),
        ("C18", blocks::c18),
        ("C19", blocks::c19),
        ("C24", blocks::c24),
        ("C17", writing2::c17),
        ("C20", trees::c20),
        ("C21", trees::c21),
        ("C22", writing2::c22),
        ("C23", writing2::c23),
        ("C25", writing2::c25),
    ]);
}
