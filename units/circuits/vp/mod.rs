//! Extraction: runs the real constraint code of every table over symbolic
//! field elements and prints what it yields, with the cross-table lookups and
//! the public sub-tables the real `MozakStark::default()` holds.
#![allow(clippy::all)]
pub mod honest;
pub mod rom;

use core::fmt::{Debug, Write};

use plonky2::field::goldilocks_field::GoldilocksField as Gold;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::symbolic::{Node, Sym, ARENA};
use serde_json::{json, Value};
use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::columns_view::HasNamedColumns;
use crate::linear_combination::Column;
use mozak_sdk::core::ecall;

use crate::stark::mozak_stark::{all_starks, MozakStark, Table, TableKind, PUBLIC_TABLE_KINDS};

fn table<S>(stark: &S, kind: TableKind) -> Value
where
    S: Stark<Sym, 1> + HasNamedColumns,
    S::Columns: FromIterator<Sym> + Debug, {
    type Frame<S> = <S as Stark<Sym, 1>>::EvaluationFrame<Sym, Sym, 1>;
    type FrameT<S> = <S as Stark<Sym, 1>>::EvaluationFrameTarget;
    let n = <Frame<S> as StarkEvaluationFrame<Sym, Sym>>::COLUMNS;
    let p = <Frame<S> as StarkEvaluationFrame<Sym, Sym>>::PUBLIC_INPUTS;
    let vars = |prefix: &str, n: usize| -> Vec<Sym> { (0..n).map(|i| Sym::var(format!("{kind:?}.{prefix}{i}"))).collect() };
    let (lv, nv, pi) = (vars("l", n), vars("n", n), vars("p", p));
    let names: S::Columns = (0..n as u64).map(Sym::C).collect();
    let mut names_text = String::new();
    write!(names_text, "{names:?}").unwrap();

    let mut consumer = ConstraintConsumer::<Sym>::recording();
    stark.eval_packed_generic(&Frame::<S>::from_values(&lv, &nv, &pi), &mut consumer);
    let packed: Vec<Value> = consumer.recorded.iter().map(|(k, c)| json!([format!("{k:?}"), format!("{c:?}")])).collect();

    let ext = |v: &[Sym]| -> Vec<ExtensionTarget<1>> { v.iter().map(|s| ExtensionTarget(*s)).collect() };
    let mut builder = CircuitBuilder::<Sym, 1>::recording();
    let mut consumer = RecursiveConstraintConsumer::<Sym, 1>::recording();
    stark.eval_ext_circuit(&mut builder, &FrameT::<S>::from_values(&ext(&lv), &ext(&nv), &ext(&pi)), &mut consumer);
    let circuit: Vec<Value> = consumer.recorded.iter().map(|(k, c)| json!([format!("{k:?}"), format!("{:?}", c.0)])).collect();
    let connected: Vec<Value> = builder.connected.iter().map(|(a, b)| json!([format!("{a:?}"), format!("{b:?}")])).collect();
    json!({
        "kind": format!("{kind:?}"), "columns": n, "public_inputs": p, "names": names_text,
        "degree": stark.constraint_degree(), "packed": packed, "circuit": circuit, "connected": connected,
        "stark_lookups": stark.lookups().len(), "requires_ctls": stark.requires_ctls(),
    })
}

fn column(c: &Column) -> Value { json!([c.lv_linear_combination, c.nv_linear_combination, c.constant]) }
fn lookup(t: &Table) -> Value {
    json!({"kind": format!("{:?}", t.kind), "columns": t.columns.iter().map(column).collect::<Vec<_>>(), "filter": column(&t.filter_column)})
}

pub fn dump() -> Value {
    let stark = MozakStark::<Sym, 1>::default();
    let tables = all_starks!(stark, |s, kind| table(s, kind));
    let tables: Vec<Value> = tables.iter().cloned().collect();
    let lookups: Vec<Value> = stark.cross_table_lookups.iter().map(|c| c.looking_tables.iter().map(lookup).collect()).collect();
    let public: Vec<Value> = stark.public_sub_tables.iter().map(|p| json!({"table": lookup(&p.table), "rows": p.num_rows})).collect();
    let nodes: Vec<Value> = ARENA.with(|a| {
        a.borrow().nodes.iter().map(|n| match n {
            Node::Var(s) => json!(["v", s]),
            Node::Add(a, b) => json!(["+", format!("{a:?}"), format!("{b:?}")]),
            Node::Sub(a, b) => json!(["-", format!("{a:?}"), format!("{b:?}")]),
            Node::Mul(a, b) => json!(["*", format!("{a:?}"), format!("{b:?}")]),
            Node::Neg(a) => json!(["~", format!("{a:?}")]),
            Node::Inv(a) => json!(["/", format!("{a:?}")]),
        }).collect()
    });
    json!({"tables": tables, "lookups": lookups, "public": public, "nodes": nodes,
        "public_tables": PUBLIC_TABLE_KINDS.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>(),
        "codes": {"is_halt": ecall::HALT, "is_private_tape": ecall::PRIVATE_TAPE, "is_public_tape": ecall::PUBLIC_TAPE,
            "is_call_tape": ecall::CALL_TAPE, "is_event_tape": ecall::EVENT_TAPE, "is_events_commitment_tape": ecall::EVENTS_COMMITMENT_TAPE,
            "is_cast_list_commitment_tape": ecall::CAST_LIST_COMMITMENT_TAPE, "is_self_prog_id_tape": ecall::SELF_PROG_ID_TAPE,
            "is_poseidon2": ecall::POSEIDON2}})
}

/// The real constraint code on one concrete row pair, in the base field: the
/// constraints that do not vanish.
fn evaluate<S>(stark: &S, lv: &[Gold], nv: &[Gold], pi: &[Gold]) -> Value
where
    S: Stark<Gold, 1>, {
    let mut consumer = ConstraintConsumer::<Gold>::recording();
    stark.eval_packed_generic(
        &<<S as Stark<Gold, 1>>::EvaluationFrame<Gold, Gold, 1> as StarkEvaluationFrame<Gold, Gold>>::from_values(lv, nv, pi),
        &mut consumer,
    );
    let bad: Vec<Value> = consumer.recorded.iter().enumerate().filter(|(_, (_, c))| !c.is_zero())
        .map(|(i, (k, c))| json!([i, format!("{k:?}"), c.to_canonical_u64()])).collect();
    json!({"constraints": consumer.recorded.len(), "not zero": bad})
}

/// Rows as JSON `{"kind": .., "lv": [..], "nv": [..], "pi": [..]}`.
pub fn eval(input: &str) -> Value {
    let v: Value = serde_json::from_str(input).unwrap();
    let get = |n: &str| -> Vec<Gold> { v[n].as_array().unwrap().iter().map(|x| Gold::from_canonical_u64(x.as_u64().unwrap())).collect() };
    let (lv, nv, pi) = (get("lv"), get("nv"), get("pi"));
    let stark = MozakStark::<Gold, 1>::default();
    let out = all_starks!(stark, |s, kind| if format!("{kind:?}") == v["kind"].as_str().unwrap() { evaluate(s, &lv, &nv, &pi) } else { Value::Null });
    let found = out.iter().find(|x| !x.is_null()).cloned();
    found.unwrap_or(Value::Null)
}
