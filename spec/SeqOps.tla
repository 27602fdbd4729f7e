------------------------------- MODULE SeqOps -------------------------------
(***************************************************************************)
(* The operations to try in a state with la items in A (capacity n) and lb *)
(* items in B (capacity m).  Arguments run over every index inside, the    *)
(* first ones outside, and usize::MAX.                                     *)
(***************************************************************************)
EXTENDS Base, IterSpec, SliceSpec

Idx(len) == 0..(len + 2) \cup {BIG}
O(name, x, y, nf) == Op(name, x, y, nf, <<>>)

Core(k, n, la, lb) ==
  {O(nm, 0, 0, 0) : nm \in {"new", "default", "clear", "pop_back", "drop_all", "exchange"}}
  \cup {O("push_back", 0, 0, 1), O("first_last", 0, 0, 0)}
  \cup {O("insert", i, 0, 1) : i \in Idx(la)}
  \cup {O("remove", i, 0, 0) : i \in Idx(la)}
  \cup {O("index", i, 0, 0) : i \in Idx(la)}
  \cup {O("get", i, 0, 0) : i \in Idx(la)}
  \cup {O("get_mut", i, y, 1) : i \in Idx(la), y \in 0..4}     \* y: which way of getting there
  \cup {O("index_mut", i, y, 1) : i \in Idx(la), y \in 0..5}
  \cup {O("swap", i, j, 0) : i, j \in 0..la}
  \cup {O("split_off", i, 0, 0) : i \in Idx(la)}
  \cup {O("extend", 0, 0, c) : c \in 0..(n - la + 2)}
  \cup {O("from_iter", 0, 0, c) : c \in 0..(n + 1)}

BothEnds(k, n, la, lb) ==          \* Chunk and RingBuffer only
  {O("push_front", 0, 0, 1), O("pop_front", 0, 0, 0), O("unit", 0, 0, 1), O("pair", 0, 0, 2)}
  \cup {O("drop_left", i, 0, 0) : i \in Idx(la)}
  \cup {O("drop_right", i, 0, 0) : i \in Idx(la)}
  \cup {O("set", i, 0, 1) : i \in Idx(la)}
  \cup (IF k = "chunk" THEN {O("range", i, j, 0) : i, j \in 0..(la + 1) \cup {BIG}} ELSE {})
  \cup {O("insert_from", i, 0, c) : i \in Idx(la), c \in 0..(n - la + 1)}
  \cup {O("insert_huge", i, y, 0) : i \in {0, la \div 2, la}, y \in 0..2}
  \cup {O("collect_from", c, 0, f) : c \in {0, 1, n, n + 1, n + 2}, f \in {0, 1, n - 1, n, n + 1} \ {-1}}

Transfer(k, n, la, lb) ==
  {O("drain_from", 0, 0, 0), O("append", 0, 0, 0)}
  \cup {O(nm, c, 0, 0) : nm \in {"from_front", "from_back", "drain_from_front", "drain_from_back"}, c \in Idx(lb)}

Cloning(k) == {O("clone", 0, 0, 0), O("clone_from", 0, 0, 0)}
Pool == {O("pool_clone", 0, 0, 0), O("pool_default", 0, 0, 0)}
Pairs(la) == {O("map_pair", i, j, 0) : i, j \in 0..la}
ExtRef(n, la) == {O("extend_ref", 0, 0, c) : c \in 0..(n - la + 2)}

Iters(la) ==
  {Op(nm, 0, 0, IF nm = "it_mut" THEN la ELSE 0, s) : nm \in {"it_ref", "it_mut", "it_own", "it_drain"}, s \in ScriptsFor(la)}

FewIters(la) ==   \* a few scripts, cheap enough for two register states
  {Op(nm, 0, 0, IF nm = "it_mut" THEN la ELSE 0, s) : nm \in {"it_ref", "it_mut", "it_own", "it_drain"},
      s \in {<<9>>, <<1, 9>>, <<2, 9>>, <<1, 2, 2, 9>>, <<1, 7>>}}

(* iterators that are forgotten after x items from the front and y from the back *)
Leaks(la) == {O(nm, x, y, 0) : nm \in {"leak_own", "leak_drain"}, x \in 0..(la + 1), y \in 0..(la + 1)}

(* op.y is the method used: write, write_all (of what fits), write_vectored until nothing more is taken; read, read_exact (of
   what is there), read_to_end, bytes, read_vectored until nothing more comes *)
IO(n, la) == {O("io_write", 0, y, c) : c \in 0..(n + 1), y \in {0, 2}} \cup {O("io_read", c, y, 0) : c \in 0..(n + 1), y \in {0, 4}}
             \cup {O("io_write", 0, 1, c) : c \in 0..(n - la)}
             \cup {O("io_read", c, y, 0) : c \in 0..la, y \in {1, 3}} \cup {O("io_read", la, 2, 0)}

XferOps(n, m, la, lb) ==
  {O(nm, 0, 0, 0) : nm \in {"from_inline", "from_inline_mut", "b_pop", "pop_back", "pop_front", "drop_all"}}
  \cup {O("b_push", 0, 0, 1), O("push_back", 0, 0, 1), O("push_front", 0, 0, 1)}
  \cup {O("b_remove", i, 0, 0) : i \in 0..lb}

(* set names a group of operations; several groups make up a check *)
OpsIn(set, k, n, m, la, lb) ==
  CASE set = "core" -> Core(k, n, la, lb) \cup (IF k = "inline" THEN {} ELSE BothEnds(k, n, la, lb))
    [] set = "move" -> (IF k = "inline" THEN {} ELSE Transfer(k, n, la, lb) \cup {O("push_front", 0, 0, 1), O("pop_front", 0, 0, 0)})
                       \cup {O("split_off", i, 0, 0) : i \in Idx(la)} \cup {O("push_back", 0, 0, 1)}
                       \cup {O(nm, 0, 0, 0) : nm \in {"pop_back", "exchange", "drop_all"}}
    [] set = "clone" -> Cloning(k) \cup (IF k = "inline" THEN {} ELSE Pool)
    [] set = "pairs" -> Pairs(la)
    [] set = "extref" -> ExtRef(n, la)
    [] set = "iter" -> Iters(la)
    [] set = "fewiter" -> FewIters(la)
    [] set = "leak" -> Leaks(la)
    [] set = "slice" -> SliceViews(la) \cup SliceAccess(la)
    [] set = "fewslice" -> {o \in SliceAccess(la) : o.op \in {"sl_owned", "sm_index", "sm_set", "sm_iter", "sm_ends", "sm_split"} /\ o.s[1] = 1}
    [] set = "io" -> IO(n, la)
    [] set = "xfer" -> XferOps(n, m, la, lb)
    [] set = "solo" ->  \* everything that leaves B alone
         {o \in Core(k, n, la, lb) \cup (IF k = "inline" THEN {} ELSE BothEnds(k, n, la, lb)) : ~(o.op \in {"split_off", "exchange", "drop_all"})}
    [] set = "step" -> \* minimal set that reaches every layout of A
         {O(nm, 0, 0, 0) : nm \in {"pop_back", "clear"}} \cup {O("push_back", 0, 0, 1)}
         \cup (IF k = "inline" THEN {} ELSE {O("push_front", 0, 0, 1), O("pop_front", 0, 0, 0)})
OpsOf(sets, k, n, m, la, lb) == UNION {OpsIn(s, k, n, m, la, lb) : s \in sets}
=============================================================================
