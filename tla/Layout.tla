-------------------------------- MODULE Layout --------------------------------
(* A circuit is a sequence of items: regions, each a sequence of operations on   *)
(* cells given by offset, lookup tables, and instance constraints.  A floor      *)
(* planner gives each region a start row; synthesis turns the items into         *)
(* assignments to absolute rows.                                                 *)
(*   region  [k |-> "region", ops |-> << op >>]                                  *)
(*   table   [k |-> "table", cells |-> << [col, off, v] >>]                      *)
(*   inst    [k |-> "inst", cell |-> << reg, off, col >>, col |-> _, row |-> _]  *)
(*   push / pop, entering and leaving a namespace                                *)
(* operations: k in  sel, adv, fix  (col, off, v),  advc (from constant v),      *)
(*   advi (from instance column icol, row irow),  cpy (from cell x, worth v),    *)
(*   const (x, v), eq (x, y)                                                     *)
(* Columns: << type, index, phase >>, type 0 instance 1 advice 2 fixed 3 selector*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

IsCellOp(o) == o.k \in {"sel", "adv", "fix", "advc", "advi", "cpy"}
ShapeCols(ops) == {ops[i].col : i \in {j \in DOMAIN ops : IsCellOp(ops[j])}}
ShapeRows(ops) == LET S == {ops[i].off + 1 : i \in {j \in DOMAIN ops : IsCellOp(ops[j])}} IN IF S = {} THEN 0 ELSE Max(S)
AdviceArea(ops) == ShapeRows(ops) * Cardinality({x \in ShapeCols(ops) : x[1] = 1})
RegionsOf(prog) == SelectSeq(prog, LAMBDA x : x.k = "region")
HasConst(o) == o.k \in {"advc", "const"}
-----------------------------------------------------------------------------
\* the rows [a, a + n) and [b, b + m) overlap
Overlap(a, n, b, m) == n > 0 /\ m > 0 /\ a < b + m /\ b < a + n
NoOverlap(regs, st) ==
  \A i, j \in DOMAIN regs : i < j /\ ShapeCols(regs[i].ops) \cap ShapeCols(regs[j].ops) # {}
     => ~Overlap(st[i], ShapeRows(regs[i].ops), st[j], ShapeRows(regs[j].ops))
\* the first row no region reaches
EndRow(regs, st) == Max({0} \cup {st[i] + ShapeRows(regs[i].ops) : i \in {j \in DOMAIN regs : ShapeCols(regs[j].ops) # {}}})
\* greedy, largest advice area first: what keeps a region from starting earlier is a region at least as large
Greedy(regs, st) ==
  \A i \in DOMAIN regs : \A q \in 0..(st[i] - 1) :
    \E j \in DOMAIN regs \ {i} :
       /\ AdviceArea(regs[j].ops) >= AdviceArea(regs[i].ops)
       /\ ShapeCols(regs[i].ops) \cap ShapeCols(regs[j].ops) # {}
       /\ Overlap(q, ShapeRows(regs[i].ops), st[j], ShapeRows(regs[j].ops))
-----------------------------------------------------------------------------
\* The simple planner: first row past everything put into any of the region's columns,
\* constants following the region in the first constant column.
\* used: column -> first free row, as a function on the columns seen
At(used, x) == IF x \in DOMAIN used THEN used[x] ELSE 0
SimpleStart(used, ops) == Max({0} \cup {At(used, x) : x \in ShapeCols(ops)})
SimpleUse(used, ops, n, ccol) ==
  LET s == SimpleStart(used, ops)
      u1 == [x \in DOMAIN used \cup ShapeCols(ops) |-> IF x \in ShapeCols(ops) THEN s + ShapeRows(ops) ELSE used[x]]
  IN IF n = 0 THEN u1 ELSE [x \in DOMAIN u1 \cup {ccol} |-> IF x = ccol THEN At(u1, ccol) + n ELSE u1[x]]
-----------------------------------------------------------------------------
\* the assignments an operation of region i makes, starts st
CellRow(st, c) == st[c[1]] + c[2]
OpLog(o, i, st) ==
  IF o.k = "sel" THEN << << "sel", o.col, st[i] + o.off >> >>
  ELSE IF o.k \in {"adv", "fix", "advc"} THEN << << IF o.k = "fix" THEN "fix" ELSE "adv", o.col, st[i] + o.off, o.v >> >>
  ELSE IF o.k = "advi" THEN << << "adv", o.col, st[i] + o.off, o.v >>, << "copy", o.col, st[i] + o.off, o.icol, o.irow >> >>
  ELSE IF o.k = "cpy" THEN << << "adv", o.col, st[i] + o.off, o.v >>, << "copy", o.col, st[i] + o.off, o.x[3], CellRow(st, o.x) >> >>
  ELSE IF o.k = "eq" THEN << << "copy", o.x[3], CellRow(st, o.x), o.y[3], CellRow(st, o.y) >> >>
  ELSE << >>
RegionLog(ops, i, st) == << << "enter" >> >> \o FlattenSeq([j \in DOMAIN ops |-> OpLog(ops[j], i, st)]) \o << << "exit" >> >>
ConstCell(o, i) == IF o.k = "const" THEN o.x ELSE << i, o.off, o.col >>
ConstLog(o, i, st, ccol, row) ==
  << << "fix", ccol, row, o.v >>, << "copy", ccol, row, ConstCell(o, i)[3], CellRow(st, ConstCell(o, i)) >> >>
-----------------------------------------------------------------------------
\* lookup tables: cells of columns an earlier table used are refused
Kept(cells, prior) == SelectSeq(cells, LAMBDA x : x.col \notin prior)
TableCols(cells) == {cells[i].col : i \in DOMAIN cells}
TableLen(cells, x) == Max({cells[i].off + 1 : i \in {j \in DOMAIN cells : cells[j].col = x}})
TableOk(cells) ==
  /\ cells # << >>
  /\ \A x \in TableCols(cells) : {cells[i].off : i \in {j \in DOMAIN cells : cells[j].col = x}} = 0..(TableLen(cells, x) - 1)
  /\ \A x, y \in TableCols(cells) : TableLen(cells, x) = TableLen(cells, y)
TableDefault(cells, x) == cells[Min({j \in DOMAIN cells : cells[j].col = x /\ cells[j].off = 0})].v
\* a column serves one table; a table's row 0 is given once
CellOk(cells, i, prior) ==
  cells[i].col \notin prior /\ (cells[i].off = 0 => ~\E j \in 1..(i - 1) : cells[j].col = cells[i].col /\ cells[j].off = 0)
TableFills(cells) == {<< "fill", x, TableLen(cells, x), TableDefault(cells, x) >> : x \in TableCols(cells)}
TableLog(kept) == << << "enter" >> >> \o [i \in DOMAIN kept |-> << "fix", kept[i].col, kept[i].off, kept[i].v >>] \o << << "exit" >> >>
-----------------------------------------------------------------------------
\* the columns taken by the tables before item i of prog
Prior(prog, i) == UNION {TableCols(prog[j].cells) : j \in {n \in 1..(i - 1) : prog[n].k = "table"}}
TablesOk(prog) == \A i \in DOMAIN prog : prog[i].k = "table" => TableOk(Kept(prog[i].cells, Prior(prog, i)))
RegNo(prog, i) == Cardinality({j \in 1..i : prog[j].k = "region"})
NConsts(prog) == FoldLeft(LAMBDA a, x : a + (IF x.k = "region" THEN Len(SelectSeq(x.ops, HasConst)) ELSE 0), 0, prog)

\* the starts of the simple planner, with the row of each region's first constant
SimplePlan(prog, ccols) ==
  FoldLeft(LAMBDA a, g :
             LET n == Len(SelectSeq(g.ops, HasConst))
                 c == IF ccols = << >> THEN << 2, -1, 0 >> ELSE ccols[1]
                 s == SimpleStart(a.used, g.ops)
                 u1 == SimpleUse(a.used, g.ops, 0, c)
             IN [used |-> SimpleUse(a.used, g.ops, n, c), st |-> Append(a.st, s), c0 |-> Append(a.c0, At(u1, c))],
           [used |-> << >>, st |-> << >>, c0 |-> << >>], RegionsOf(prog))
RegionConsts(ops, i, st, ccol, row) ==
  LET W == SelectSeq(ops, HasConst) IN FlattenSeq([j \in DOMAIN W |-> ConstLog(W[j], i, st, ccol, row + j - 1)])
\* what item i of prog assigns; cl gives the assignments of a region's constants
ItemLog(prog, i, st, cl) ==
  LET x == prog[i] n == RegNo(prog, i)
  IN IF x.k = "region" THEN RegionLog(x.ops, n, st) \o cl[n]
     ELSE IF x.k = "table" THEN TableLog(Kept(x.cells, Prior(prog, i))) \o << << "fills", TableFills(Kept(x.cells, Prior(prog, i))) >> >>
     ELSE IF x.k = "inst" THEN << << "copy", x.cell[3], CellRow(st, x.cell), x.col, x.row >> >>
     ELSE << << x.k >> >>
ProgLog(prog, st, cl) == FlattenSeq([i \in DOMAIN prog |-> ItemLog(prog, i, st, cl)])
\* the free cells of the constant columns
FreeCells(regs, st, ccols) ==
  {z \in Range(ccols) \X (0..(EndRow(regs, st) - 1)) :
     ~\E i \in DOMAIN regs : z[1] \in ShapeCols(regs[i].ops) /\ st[i] <= z[2] /\ z[2] < st[i] + ShapeRows(regs[i].ops)}
\* all the constants of prog with the region that asks for them
AllConsts(prog) ==
  LET R == RegionsOf(prog) IN FlattenSeq([i \in DOMAIN R |-> LET W == SelectSeq(R[i].ops, HasConst) IN [j \in DOMAIN W |-> << W[j], i >>]])
=============================================================================
