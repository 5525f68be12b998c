//! Which ELF files are accepted.
use super::*;
use elf::endian::LittleEndian;
use elf::file::{Class, FileHeader};
use elf::segment::{ProgramHeader, SegmentTable};
use elf::ElfBytes;

/// Stands for what comes after validation (decided by running the loader).
fn load(_: &[u8], entry_point: u32, _: SegmentTable<LittleEndian>, _: fn(flags: u32, program_headers: &ProgramHeader) -> bool) -> Program {
    Program { entry_point, ..Program::default() }
}

static NONE: [ProgramHeader; 0] = [];
struct Header { class: bool, machine: u16, kind: u16, entry: u64, table: bool, count: usize, parses: bool }
fn any_header() -> Header {
    let h = Header { class: kani::any(), machine: kani::any(), kind: kani::any(), entry: kani::any(), table: kani::any(), count: kani::any(), parses: kani::any() };
    elf::script::set(if h.parses {
        Some(ElfBytes {
            ehdr: FileHeader { class: if h.class { Class::ELF32 } else { Class::ELF64 }, endianness: LittleEndian, e_type: h.kind, e_machine: h.machine, e_entry: h.entry, e_flags: kani::any() },
            segments: if h.table { Some(SegmentTable { headers: &NONE, len_override: Some(h.count), endian: LittleEndian }) } else { None },
        })
    } else {
        None
    });
    h
}
fn accepted(h: &Header) -> bool {
    h.parses && h.class && h.machine == 243 && h.kind == 2 && h.entry <= 0xffff_ffff && h.entry % 4 == 0 && h.table && h.count <= 256
}
fn validate(f: fn(&[u8]) -> anyhow::Result<Program>) {
    let h = any_header();
    let r = f(&[]);
    kani::assert(r.is_ok() == accepted(&h), "exactly 32-bit RISC-V executables with an aligned entry and up to 256 segments");
    if let Ok(p) = &r {
        kani::assert(u64::from(p.entry_point) == h.entry, "the entry point is the file's");
    }
    kani::cover!(r.is_ok(), "accepted");
    kani::cover!(r.is_err(), "refused");
    std::mem::forget(r);
}
#[kani::proof]
#[kani::stub(crate::elf::Program::internal_load_elf, load)]
#[kani::unwind(3)]
fn vanilla() { validate(Program::vanilla_load_elf) }
#[kani::proof]
#[kani::stub(crate::elf::Program::internal_load_elf, load)]
#[kani::unwind(3)]
fn mozak() { validate(Program::mozak_load_program) }
