"""What each property rests on: the units, configurations and functions under contract."""
import unit_btree as ub
import unit_misc as um
import unit_art as ua
import art_lemma as al

UNITS = {"art": ua.ArtUnit, "artlemmas": al.LemmaUnit, "btree": ub.BtreeUnit, "keys": um.KeyUnit, "hash": um.HashUnit, "strs": um.StrUnit, "gens": um.GenUnit}
TRUST = ["clang++-18 front end and the LLVM passes always-inline, globaldce, sroa, early-cse, simplifycfg, loop-simplify, adce (the verified text is the IR they produce from /repo's headers)",
         "the obligation generator in /verif/dv (executor, memory model, contracts)", "z3 4.x and cvc5 as back ends", "operator new[] returns fresh memory or throws; std::bad_alloc is not modelled (-fno-exceptions)"]
BT_ASSUME = ["instance map<int,int,Traits,std::less<int>>; quick uses NODE_SIZE 192 / threshold 80 / DEBUG and, for size-sensitive functions, the default traits (8192 / 20)",
             "map invariant assumed at entry of every public operation and proved at its exit (established by the constructor)", "fewer than 2^60 elements, tree height below 2^30",
             "iterator arguments designate a position of the map they belong to", "one thread"]
MUT = ["Map::operator[]", "Map::erase it", "Map::erase key"]
CONSTOPS = ["Map::find c", "Map::lower_bound c", "Map::upper_bound c", "Map::begin c", "Map::end c", "Map::rbegin c", "Map::rend c", "Map::cbegin", "Map::cend", "Map::crbegin", "Map::crend"]
NONCONST = ["Map::find", "Map::lower_bound", "Map::upper_bound", "Map::begin", "Map::end", "Map::rbegin", "Map::rend"]
MOVES = ["It%s%s::operator%s%s" % (d, m, op, p) for d in "FR" for m in "mc" for op in ("++", "--") for p in ("", " post")]
ACC = ["It%s%s::%s" % (d, m, o) for d in "FR" for m in "mc" for o in ("operator*", "operator->", "key", "data", "operator==", "operator!=")]
LIFE = ["Map::~map", "dv::ctor"]
GETS = ["Map::size", "Map::empty", "Map::height"]
PAGE = ["%s::%s" % (o, m) for o in ("Leaf", "Inner") for m in ("alloc", "trim", "split", "merge", "insert", "insert_into_pos", "append", "copy_from", "remove", "lower_bound", "lower_bound_pos", "upper_bound_pos")] + \
       ["Inner::" + m for m in ("search_inner", "get_child_for_key", "get_value_lower_than", "insert_neg_infinity", "update")] + ["Node::free"]
SIZED = ["Map::%s<%s>" % (m, k) for m in ("handle_overflow", "insert_into_node") for k in ("Leaf", "Inner")]    # arithmetic on the page size

def bt(roots, quick_default=(), direct=False):
    def jobs(tier):
        def clo(r): return lambda u: [f for f in (ub.callees(u, r) if not direct else [x for x in r if x in u.contracts])]
        out = [{"unit": "btree", "config": "small", "fns": clo(roots)}]
        if tier == "thorough": out.append({"unit": "btree", "config": "default", "fns": clo(roots)})
        elif quick_default: out.append({"unit": "btree", "config": "default", "fns": lambda u: [f for f in quick_default if f in u.contracts]})
        return out
    return jobs

def P(jobs, cats, extra=(), driver="btree"): return {"jobs": jobs, "cats": cats, "trusted": TRUST, "assume": BT_ASSUME + list(extra), "driver": driver}

PROPS = {
 "C01": P(bt(MUT + ["Map::find", "Map::find c", "ItFm::operator*", "ItFm::operator->", "ItFm::key", "ItFm::data", "ItFc::operator*", "ItFc::operator->", "dv::ctor"], SIZED), ["point", "crash", "hang"]),
 "C02": P(bt(MUT + MOVES + ACC + NONCONST + CONSTOPS + ["dv::conv"]), ["iter", "crash", "hang"]),
 "C03": P(bt(MUT + ["Map::lower_bound", "Map::upper_bound", "Map::lower_bound c", "Map::upper_bound c"]), ["bound", "crash", "hang"]),
 "C04": P(bt(MUT + MOVES + ACC + NONCONST + CONSTOPS + LIFE + GETS + PAGE, PAGE + SIZED), ["layout", "crash"]),
 "C05": P(bt(MUT + GETS + ["dv::ctor"]), ["size", "crash", "hang"]),
 "C06": P(bt(MUT + ["Map::find", "Map::find c", "Map::get_leaf_containing", "Map::get_upper_bound_leaf", "Map::get_first_leaf", "Map::get_last_leaf", "Map::get_next_leaf", "Map::get_prev_leaf", "dv::ctor"], SIZED), ["struct", "crash", "hang"]),
 "C07": P(bt(PAGE + ["Map::%s<%s>" % (m, k) for m in ("trim_node", "split_node", "merge_node") for k in ("Leaf", "Inner")], PAGE), ["point", "struct", "layout", "iter", "crash", "hang"]),
 "C08": P(bt(MUT + LIFE + ["Node::free"]), ["lifetime", "crash", "hang"]),
 "C09": P(bt(CONSTOPS + NONCONST + [m for m in MOVES if m[3] == "c"] + [a for a in ACC if a[3] == "c"] + ["dv::conv"]), ["const", "crash", "hang"]),
 "C11": P(bt(["Map::operator[]", "dv::ctor"]), ["init", "crash"]),
}

MTRUST = [TRUST[0], "the path-enumerating bit-vector executor in /verif/dv/bvx.py (exact machine arithmetic, byte-level memory)", "z3 4.x"]
def misc(unit, define, cats, assume, extra=(), fns=None, **kw):
    return dict({"jobs": lambda tier: [{"unit": unit, "config": "std", "fns": (lambda u: fns(u, tier)) if fns else (lambda u: u.fns())}], "cats": cats, "trusted": MTRUST + list(extra), "assume": list(assume), "driver": "misc", "define": define}, **kw)
PROPS.update({
 "C10": misc("keys", "C10", ["order", "crash"], ["shapes of one to four components on either side (the comparison code is instantiated per shape; each instance is proved for all component values)", "a component of unknown type is compared by operators that form a strict total order", "component types: an opaque class type, int, unsigned long, signed char"]),
 "C20": misc("gens", "C20", ["gen", "crash", "hang"], ["lo <= hi; zipfian-based generators over 2 <= items < UINT64_MAX/2^24 (asserted by the code)", "latest-skewed generator: its zipfian draw of n items lies in [0,n) (see C25)", "one thread between lock and unlock: values of a call under the generator's mutex are not interleaved"],
   ["std::uniform_int_distribution<uint64_t>(a,b) returns a value in [a,b] when a <= b (its precondition is an obligation)", "utils::RandomDouble, pow and Zeta return arbitrary doubles without touching the generator", "pthread mutex lock/unlock", "operator new/delete of std::shared_ptr control blocks"]),
 "C23": misc("hash", "C23", ["hash", "crash"], []),
 "C24": misc("strs", "C24", ["str", "crash"], ["bounded: texts of up to 7 characters (thorough: 11), every byte value at every position", "the C locale's isspace and tolower"], ["operator new, memcpy, memcmp, strlen, isspace and tolower as specified by the C library", "construction of the exception object"],
   fns=lambda u, tier: u.fns(tier), level="other", explanation=lambda tier: "bounded symbolic check of the compiled real functions, not a proof: every text of at most %d characters, all byte values symbolic, all paths; longer texts are not covered (libstdc++'s find_if_not/transform loops are executed, not cut by invariants)" % um.StrUnit.MAX[tier]),
})

ART_ASSUME = ["instance map<int, art_traits_default>; keys are 64-bit words whose bytes are taken in memory order (little-endian target)", "stand-in headers for folly/portability/Builtins.h and sync_prim/ThreadRegistry.h (/verif/dv/harness/stub), which the repository's submodules do not provide here",
              "a node's address is not that of another live node; operator new returns fresh memory or throws", "one thread"]
NODEOPS = ["Node::" + n for n in ("find", "add", "update", "remove", "expand", "shrink", "is_underfull", "free", "longest_common_prefix_length", "extract_common_prefix")] + ["Node%s::ctor" % k for k in (4, 16, 48, 256)]
TREEOPS = ["Map::erase", "Map::insert<0>", "Map::insert<1>", "Map::insert<2>", "Map::Search", "Map::Insert", "Map::Upsert", "Map::Update", "Map::Delete", "Map::size", "dv::ctor", "dv::move"]
def art(fns, cats, extra=(), tree=()):
    def jobs(tier):
        out = [{"unit": "artlemmas", "config": "std", "fns": lambda u: u.fns()}]
        if tree: out.append({"unit": "art", "config": "arttree", "fns": lambda u: [f for f in tree if f in u.contracts]})
        return out + [{"unit": "art", "config": "art", "fns": lambda u: [f for f in fns if f in u.contracts]}, {"unit": "art", "config": "artmember", "fns": lambda u: list(u.contracts)}]
    return {"jobs": jobs, "cats": cats, "trusted": TRUST, "assume": ART_ASSUME + list(extra), "driver": "art"}
PROPS.update({
 "C12": art(NODEOPS, ["map", "crash", "hang"], tree=TREEOPS),
 "C13": art(NODEOPS, ["node", "crash", "hang"]),
 "C14": art(NODEOPS, ["size", "crash", "hang"], ["finite sets: the number of keys changes by one when one key comes or goes; fewer than 2^60 keys"], tree=TREEOPS),
})

COMMON = " Trusts the clang front end and LLVM inlining/SROA passes that produce the verified text, the obligation generator in /verif/dv, z3 and cvc5; machine integers are treated as ranges with explicit overflow obligations; the instance is map<int,int> (integer keys and values, std::less) at NODE_SIZE 192, and at the default 8192 for size-sensitive functions (thorough: everything at both)."
ARTC = " The inductive argument over histories is: the constructor and the move constructor establish the tree invariant, every operation keeps it. Not under contract: ~map and the dump functions. Trusts the clang front end and LLVM passes, the obligation generator in /verif/dv and z3; stand-in headers replace two absent submodule headers."
NOTES = {
 "C01": "Every function from operator[]/erase/find down to the page primitives meets a contract over an abstract key set and value map; all inputs, all tree shapes, no bound." + COMMON,
 "C02": "begin/end/rbegin/rend and all ++/-- forms are proved to designate the least/greatest remaining key of the abstract content, and every mutator to keep the invariant they rely on." + COMMON,
 "C03": "lower_bound/upper_bound proved for keys of the map's own key type; prefix keys of compound type are not covered by the integer instance." + COMMON,
 "C04": "Every load and store of every function under contract is proved to hit an allocated page inside its bounds, aligned; accounting and disjointness are part of every page contract." + COMMON,
 "C05": "size(), empty() and height() and every change of the count are proved against the abstract key set (a key is new / was present)." + COMMON,
 "C06": "The tree invariant (balance, children partition the parent's range at its separators, keys inside fences, disjoint levels) is a pre- and postcondition of every operation; descents carry a decreasing measure." + COMMON,
 "C07": "split, trim and merge of both page kinds are proved against sequence-of-entries contracts, page by page and inside the tree." + COMMON,
 "C08": "Each allocation and release is tracked per page: no release twice, matching form, no access after release, no page outside the tree left over after an operation, and none after ~map (std::deque in the destructor is a trusted queue)." + COMMON,
 "C09": "const members and their non-const counterparts are proved against the same contract, with an empty frame; termination of their loops is proved by measures." + COMMON,
 "C11": "operator[] of an absent key is proved to return an entry whose value reads 0 (value-initialised int)." + COMMON,
 "C10": "All six comparison operators of compound_key, for every pair of shapes of up to four components, are proved equal to the lexicographic relation with the prefix rule, for all values of opaque (any strict total order), signed and unsigned components; the relation itself is proved to be a strict total order. Trusts clang, the bit-vector executor in /verif/dv/bvx.py and z3.",
 "C20": "Each generator is an object with an invariant established by its constructor and kept by every call (candidates inferred, then proved by induction); the range, sequence and Last() contracts follow for every state and every draw. Assumes std::uniform_int_distribution, and for the latest-skewed generator that the zipfian draw is in range (C25, floating point, not claimed). Trusts clang, bvx.py and z3.",
 "C23": "FNVHash64 and Hash proved equal to the FNV-1a fold for all 2^64 arguments, with an empty write frame. Trusts clang, bvx.py and z3.",
 "C24": "Bounded, not a proof: the compiled Trim and StrToBool are followed on every path for all texts of up to 7 (thorough 11) characters, every byte symbolic. Longer texts are not covered.",
 "C12": "Search, Insert, Upsert, Update, Delete and the insert/erase functions beneath them are proved, for every tree and every 64-bit key, against an abstract map from keys to leaves; the tree invariant relates each node to the key bytes consumed above it (path compression, every node reached through the byte its keys continue with). They rest on the node contracts of C13, proved in the same run."+ARTC,
 "C14": "size() is proved equal to the number of keys of the abstract map of C12 after the constructors and after each of Insert, Upsert, Update and Delete, for every tree, key and value."+ARTC,
 "C13": "find, add, update, remove, expand, shrink, is_underfull, free, the prefix functions and the node constructors are proved against one representation invariant relating each of the four layouts to an abstract map byte -> child, for every content and byte; counting and key-prefix lemmas are proved in the same run. Trusts the clang front end and LLVM passes, the obligation generator in /verif/dv and z3; stand-in headers replace two absent submodule headers.",
}
