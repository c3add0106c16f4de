PROPS = [
 dict(id='I01', title='Types are unique, named unambiguously, and convert between contexts intact',
  statement="A context makes a type exactly when its parameters are allowed (integer, date, time, decimal, array and dictionary sizes and units) and always hands out the same object for the same parameters; two types, of one context or of two, are equal exactly when all their parameters are. size, canonical form, nullable and NOT NULL form and the type-class predicates follow from the parameters; a type's printed name identifies it and typeFromString reads that name, and every documented shorter spelling in any letter case, back as the same type and refuses texts that name no type; copying a type to another context gives that context's own type with the same parameters, element types included.",
  over=['inputs'], quant='∀ types, ∀ pairs of types, ∀ spellings; all types of up to two levels of nesting with valid and invalid parameters, pairs differing in one parameter, two contexts, spellings',
  why='the parameter space (16 kinds × sizes × units × nullability × nesting) is far larger than any table in a test, and equality errors need a pair that differs in just the forgotten parameter',
  files=['omniscidb/IR/Type.cpp', 'omniscidb/IR/Type.h', 'omniscidb/IR/Context.cpp'],
  mech=[('construction and uniqueness of types', 'omniscidb/IR/Context.cpp'), ('equality, names, sizes and forms', 'omniscidb/IR/Type.cpp')],
  note='Types.tla defines which types exist and their names, sizes and forms; TLC checks on 80 000 pairs that names identify types and that the forms are consistent (TypesMC), then validates recorded constructions, comparisons, copies and parses of the real Context against it (TraceIR).'),
 dict(id='I02', title='Expressions are equal exactly when the same term; rewriting substitutes',
  statement='Two expressions compare equal (both ways round) exactly when they are the same term: same form, operator, qualifier, parameters, cast target, constants, columns and parts in the same order. Equal expressions have equal hashes, an expression is equal to itself and its hash does not change. A rewriter that replaces columns yields the expression with precisely those columns replaced and everything else kept, leaves the original untouched and returns the very same object when nothing is replaced; a collector visits every column in the expression, wherever it is nested. withType changes only the type.',
  over=['inputs'], quant='∀ expressions, ∀ pairs, ∀ column substitutions; random expressions of all 27 forms up to depth 3; pairs of copies, of expressions differing in a single parameter or part at any depth, and of unrelated ones; substitutions of up to 12 columns',
  why='each of the 27 forms has its own equality, hash, visitor and rewriter with several fields; a forgotten field only shows for a pair that differs in that field alone',
  files=['omniscidb/IR/Expr.cpp', 'omniscidb/IR/Expr.h', 'omniscidb/IR/ExprRewriter.h', 'omniscidb/IR/ExprVisitor.h', 'omniscidb/IR/ExprCollector.h'],
  mech=[('equality and hashes of expressions', 'omniscidb/IR/Expr.cpp'), ('rewriting', 'omniscidb/IR/ExprRewriter.h'), ('visiting and collecting', 'omniscidb/IR/ExprVisitor.h')],
  note='Exprs.tla defines terms, sameness, substitution and the columns of a term; the driver builds each term as a real expression, reads it back through the public interface, and TLC validates comparisons, hashes, rewrites, collections and withType against the definitions (TraceIR).'),
 dict(id='I03', title='Constants keep their value when cast, read from or written to text',
  statement="Casting a constant between boolean, integer, decimal and floating-point types gives the same number, rounded half away from zero where the target has fewer fraction digits, or is refused when the target's range does not contain it; NULL stays NULL; strings are cut to the target length in bytes; timestamps and dates convert by flooring to the coarser unit, before 1970 too. StringToDatum reads integer, decimal, floating-point and boolean texts as the number written (with fraction and exponent, rounded half away from zero), and refuses texts that are no number, out of range or equal to the NULL marker of a nullable type. DatumToString writes every digit of integers and decimals, six fraction digits of floating-point numbers, and dates, times and timestamps in ISO form.",
  over=['inputs'], quant='∀ values, ∀ pairs of types, ∀ texts; boundary and random values of every size, scales 0 to 18, negative and pre-1970 values, texts with signs, fractions, exponents and garbage',
  why='errors sit at range limits, halves, scale extremes and negative instants; each depends on a pair of types and a value',
  files=['omniscidb/IR/Expr.cpp', 'omniscidb/IR/Datum.cpp', 'omniscidb/QueryEngine/DateTimeUtils.h'],
  mech=[('Constant::cast', 'omniscidb/IR/Expr.cpp'), ('StringToDatum, DatumToString, Datum comparison', 'omniscidb/IR/Datum.cpp')],
  note='Consts.tla computes with numbers as digit sequences of any length (scaling, rounding, range limits, printing), Instants.tla with dates; TLC validates recorded casts, readings and printings of the real constants (TraceIR).'),
]
