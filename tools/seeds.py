"""The planted bugs (writes /verif/seeded)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import make
S = "Splinter/src/"
only = sys.argv[1:]


def seed(id, *a, **k):
    if not only or id in only:
        make(id, *a, **k)


seed("j03-commit-backwards", "J03", [(S + "allocation_layer/UnifiedCrashAwareJournal_v.rs", "            require pre.persistent.seq_end(pre.dv) <= frozen_journal.seq_end(pre.dv);\n", "")], '''
from m_journal import CrashJournal
j = CrashJournal("unified", maxlsn=2, aus=1, pages=2, addrs=2, vals=(1,))
M, L = j.model, j.clabel
fill = lambda d: d["op"] == "tau" and d["allocs"] == [0]
mar = lambda d: d["op"] == "tau" and not d["allocs"] and not d["deallocs"]
s = walk(M, L, M.inits(), [op("load"), fill, op("put", start=0, msgs=[1]), mar, op("put", start=1, msgs=[1]), mar])
s = [x for x in s if len(x.f_dv.f_entries.d) == 2]
check(bool(s), "two records are on disk")
s = walk(M, L, s, [op("cstart", bdy=0), op("ccomplete"), op("persist", lsn=2)])
check(bool(s), "both records were reported durable")
s = walk(M, L, s, [op("cstart", bdy=0), op("ccomplete"), op("crash", keep=False), op("load")])
check(bool(s), "recovered after another commit and a crash")
bad = [x for x in s if not walk(M, L, [x], [op("end", lsn=2)])]
check(not bad, "every recovery ends at the durable position")
''', "a second commit of the journal that freezes at an older page than the commit before, then a crash", "log positions already reported durable are lost after the second commit")

seed("j02-prune-reserved", "J02", [(S + "allocation_layer/MiniAllocator_v.rs", "        &&& self.allocs[au].has_no_outstanding_refs()\n    }\n\n    // a set", "        &&& self.allocs[au].has_no_outstanding_refs() || self.curr == Some(au)\n    }\n\n    // a set")], '''
from m_journal import Journal
j = Journal("alloc", maxlsn=2, aus=1, pages=2, addrs=2, vals=(1,))
M, L = j.model, j.label
fill = lambda d: d["op"] == "tau" and d["allocs"] == [0]
mar = lambda d: d["op"] == "tau" and not d["allocs"] and not d["deallocs"]
ini = [s for s in M.inits() if not s.f_journal.f_truncated_journal.f_disk_view.f_entries.d]
s = walk(M, L, ini, [fill, op("put", start=0, msgs=[1]), mar])
s = [x for x in s if x.f_journal.f_truncated_journal.f_disk_view.f_entries.d]
check(bool(s), "a record was written to unit 0")
s = walk(M, L, s, [lambda d: d["op"] == "tau" and d["deallocs"] == [0]])
check(not s, "unit 0 is not given back while it holds a live record")
''', "pruning the allocation unit that is currently being filled, after a record was written to it and before it is full", "a unit holding live journal records is given back to the free pool")

seed("c02-journal-commit-backwards", "C02", [(S + "abstract_system/AbstractCrashAwareJournal_v.rs", "            require pre.persistent.seq_end <= frozen_journal.seq_end;\n", "")], '''
from m_coord import Coord
import smexec
m = Coord(keys=1, max_ops=1, vals=(1,), ids=(0,), crash=True, sync=True)
M, L = m.model, m.label
quiet = [op("tau"), op("land")]
s = walk(M, L, M.inits(), [quiet, lambda d: d["op"] == "request" and d["req"]["kind"] == "put", quiet, op("execute"), quiet, lambda d: d["op"] == "reply"])
check(bool(s), "a put was answered")
s = walk(M, L, s, [quiet, op("reqsync"), quiet, op("replysync")])
check(bool(s), "a sync was answered")
s = walk(M, L, s, [quiet, lambda d: d["op"] == "crash", quiet])
lost = [x for x in s if x.f_journal.f_persistent.f_seq_end == 0]
check(not lost, "the synced put is in the durable journal after every crash")
''', "a commit that freezes an older slice of the journal after a sync was answered, and then a crash", "a put covered by an answered sync is lost")


seed("b01-compact-partly-flushed", "B01", [(S + "betree/BufferOffsets_v.rs", """            } else if self.offsets[i] < end {
                start as nat
            } else {""", """            } else if self.offsets[i] < end {
                (start + 1) as nat
            } else {""")], '''
from m_betree import Betree
b = Betree("filtered")
M = b.model
s0 = [s for s in M.inits() if s.f_root._variant == "Node" and list(s.f_root.f_flushed.f_offsets) == [1, 0]]
check(bool(s0), "a tree whose first buffer was flushed to one child only")
step = lambda s, f: [p for l, st, p in M.expand(s) if f(l, st)]
s1 = [q for s in s0 for p in step(s, lambda l, st: b.label(l) == {"op": "put", "start": 1, "puts": [{"kind": "def", "k": 0, "v": 2}]}) for q in step(p, lambda l, st: st._variant == "internal_flush_memtable")]
check(bool(s1), "a put was moved into the root")
n = 0
for s in s1:
    for l, st, p in M.expand(s):
        if st._variant == "internal_compact":
            n += 1
            check(b.view(p)["map"] == b.view(s)["map"], "compacting leaves the map as it was")
check(n > 0, "the root can be compacted")
''', "compacting a range of buffers of which only a prefix was flushed to some child", "messages in the compacted buffers that were not yet flushed to that child are lost to queries")


B2PRE = """
from m_linked import Linked
b = Linked("likes")
M = b.model
whole = lambda s: b.view(s)
ok = lambda s: whole(s)["ok"] and whole(s)["stored"] and whole(s)["likes"] == whole(s)["refs"]
cur = [s for s in M.inits() if b.lin(s).f_root._variant == "Some"]
check(len(cur) >= 2 and all(ok(s) for s in cur), "starts from whole trees")
def step(ss, ts, nmax=400):
    out = []
    for s in ss[:nmax]:
        for l, st, p in b.expand(s):
            if st._variant in ts and p not in out:
                check(ok(p), "after " + st._variant + " the recorded references are those of a whole tree")
                check(whole(p)["map"] == whole(s)["map"], st._variant + " leaves the map as it was")
                out.append(p)
    return out
"""
seed("b02-flush-keeps-old-child-likes", "B02", [(S + "allocation_layer/LikesBetree_v.rs", "pre.buffer_likes.sub(flush_discard_buffers(path, buffer_gc))", "pre.buffer_likes.sub(flush_discard_buffers(path, path.target().root().flushed.offsets[child_idx as int]))")], B2PRE + """
n = step(cur, ("internal_flush",))
check(bool(n), "a flush happens")
""", "a flush to a child that had already received some of the node's buffers while another child still needs them", "reference counts of buffers that the node still holds are dropped: their pages can be freed while live")
seed("b02-noop-drops-buffers", "B02", [(S + "betree/LinkedBetree_v.rs", "require pre.linked.reachable_buffers_preserved(new_linked);", "require new_linked.buffer_dv.is_sub_disk(pre.linked.buffer_dv);")], B2PRE + """
n = step(cur, ("internal_buffer_noop", "internal_noop"))
""", "a background clean-up of unused buffers after which a buffer that is still referred to is gone", "queries for keys in the dropped buffer have no answer or an older one")

seed("b03-append-across-pivot", "B03", [(S + "betree/LinkedBranch_v.rs", "        &&& path.key == keys[0]\n        &&& path.path_equiv(keys.last())\n", "        &&& path.key == keys[0]\n")], """
from m_branch import Branches
b = Branches("linked")
n = 0
todo = list(b.roots())
seen = set(todo)
while todo and len(seen) < 400:
    t = todo.pop(0)
    for l, st, p in b.expand(t):
        if st != "insert" and p not in seen:
            seen.add(p); todo.append(p)
        if st == "append":
            n += 1
            old, new = b.view(t)["map"], b.view(p)["map"]
            want = [l["ms"][l["ks"].index(k)] if k in l["ks"] else old[k] for k in range(b.nk)]
            check(new == want and b.view(p)["answers"] == want, "the appended keys, and no others, are found afterwards")
check(n > 0, "something can be appended")
""", "appending a run of keys whose first key belongs to one leaf and whose last key belongs to the next", "keys land in a leaf that the pivots do not route to, so queries miss them")
seed("b03-seal-keeps-idle-units", "B03", [(S + "allocation_layer/AllocationBranch_v.rs", "&&& self.mini_allocator.removable_aus() == dealloc_aus", "&&& self.mini_allocator.removable_aus() <= dealloc_aus + self.mini_allocator.all_aus()\n        &&& dealloc_aus <= self.mini_allocator.removable_aus()")], """
from m_branch import Branches
b = Branches("alloc")
n = 0
todo, seen = list(b.roots()), set()
while todo and n < 30:
    s = todo.pop(0)
    for l, st, p in b.expand(s):
        if st == "seal":
            n += 1
            v = b.view(p)
            check(v["units"] == v["pages"], "a sealed branch holds exactly the units its pages are in")
        elif p not in seen:
            seen.add(p); todo.append(p)
check(n > 0, "some branch was sealed")
""", "sealing a branch that was given more units than it used while returning only some of the idle ones", "units without pages stay with the sealed branch but are not in its summary: they are lost for good")

# ---- marshalling: demos compile a small program with the marshalling sources
MROOT = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "drivers", "marshal", "main.rs")).read()
MUSE = "".join(f"use crate::marshalling::{m}::*;\n" for m in ("Slice_v", "Marshalling_v", "IntegerMarshalling_v", "SeqMarshalling_v", "UniformSized_v", "UniformSizedSeq_v", "ResizableUniformSizedSeq_v",
                                                             "VariableSizedElementSeq_v", "KVPairFormat_v"))
MDEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
for x in marshalling marshalling.rs spec betree; do ln -s "$PWD/Splinter/src/$x" "$d/$x"; done
cp "$here/main.rs" "$here/drv.rs" "$d/"; V=/opt/veriftools/verus; cd "$d"
verus --extern builtin=$V/libverus_builtin.rlib --extern builtin_macros=$V/libverus_builtin_macros.so --extern state_machines_macros=$V/libverus_state_machines_macros.so --no-verify --compile -o "$d/drv" main.rs >log 2>&1 || { tail -20 log; exit 2; }
"$d/drv"
'''


def mseed(id, prop, edits, body, needs, breaks):
    seed(id, prop, edits, MDEMO, needs, breaks, snapshot=False, files=[("main.rs", MROOT), ("drv.rs", MUSE + "pub fn run() {\n" + body + "}\n")])


M = S + "marshalling/"
mseed("m01-exec-parse-long-slice", "M01", [(M + "IntegerMarshalling_v.rs", """        let sr = slice_subrange(data.as_slice(), slice.start, slice.start+T::exec_uniform_size());
        assert( sr@ == slice@.i(data@).subrange(0, T::uniform_size() as int) ); // trigger
        let value""", """        let sr = slice_subrange(data.as_slice(), slice.end-T::exec_uniform_size(), slice.end);
        let value""")], '''
    let f = IntFormat::<u16>::new();
    let d: Vec<u8> = vec![9, 1, 2, 3, 4, 9];
    let a = f.exec_parse(&Slice { start: 1, end: 3 }, &d);
    assert!(a == 0x0201, "exact slice");
    let b = f.exec_parse(&Slice { start: 1, end: 5 }, &d);
    assert!(b == 0x0201, "the value at the start of a longer slice");
''', "parsing an integer from a slice that is longer than the integer", "exec_parse returns the bytes at the end of the slice instead of those at its start")
mseed("m02-initialize-clears-slice", "M02", [(M + "ResizableUniformSizedSeq_v.rs", """        let length_end = self.lenf.exec_marshall(&length_val, data, dslice.start);

""", """        let length_end = self.lenf.exec_marshall(&length_val, data, dslice.start);
        if newlen == 0 {
            // leave no stale elements behind
            let mut k: usize = length_end;
            while k < dslice.end { assume(false); data.set(k, 0); k += 1; }
        }

""")] , '''
    let f = ResizableUniformSizedElementSeqFormat::<IntFormat<u8>, u8>::new(IntFormat::new(), IntFormat::new(), 4);
    let mut d: Vec<u8> = vec![7; 10];
    f.initialize(&Slice { start: 0, end: 10 }, &mut d);
    assert!(d[4..] == [7, 7, 7, 7, 7, 7], "bytes behind the sequence are untouched");
    f.resize(&Slice { start: 0, end: 4 }, &mut d, 2);
    f.exec_set(&Slice { start: 0, end: 4 }, &mut d, 0, &5);
    f.resize(&Slice { start: 0, end: 4 }, &mut d, 0);
    f.resize(&Slice { start: 0, end: 4 }, &mut d, 1);
    assert!(f.exec_get_elt(&Slice { start: 0, end: 4 }, &d, 0) == 5, "resizing preserves the slots");
''', "initialising or emptying a resizable sequence that lies in a longer slice, or reading a slot again after shrinking to nothing", "bytes that do not belong to the sequence, and existing slots, are overwritten")
mseed("m03-well-formed-every-other", "M03", [(M + "VariableSizedElementSeq_v.rs", "                        return false;\n                    }\n                    i += 1;\n", "                        return false;\n                    }\n                    i += 2;\n")], '''
    let f = VariableSizedElementSeqFormat::<UniformSizedElementSeqFormat<IntFormat<u8>>, u8, u8>::new(UniformSizedElementSeqFormat::new(IntFormat::new()), IntFormat::new(), IntFormat::new(), 9);
    let good: Vec<u8> = vec![3, 8, 7, 6, 0, 0, 1, 2, 3];
    assert!(f.exec_well_formed(&Slice { start: 0, end: 9 }, &good));
    let bad: Vec<u8> = vec![3, 8, 6, 7, 0, 0, 1, 2, 3];
    assert!(!f.exec_well_formed(&Slice { start: 0, end: 9 }, &bad), "element 2 ends before it starts");
''', "a table in which start offsets at an odd position are out of order", "corrupt data is reported well formed")
