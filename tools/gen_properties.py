#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
S = "symbolic/"
ALLEXPR = [S+f for f in ("constant.go","variable.go","monomial.go","polynomial.go","constant_vector.go","variable_vector.go","monomial_vector.go","polynomial_vector.go","constant_matrix.go","variable_matrix.go","monomial_matrix.go","polynomial_matrix.go")]
SCAL = ALLEXPR[:4]
GLUE = [S+"expression.go",S+"scalar_expression.go",S+"vector_expression.go",S+"matrix_expression.go"]
CON = [S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go",S+"constraint.go",S+"constr_sense.go"]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["the expression, constraint or value returned at the public API, read through its exported fields"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

WF = "well-formed expressions (each term has one positive exponent per distinct variable; polynomials may be unsimplified, with repeated, zero or several constant terms) over the variables of one environment"

prop("S01","Sums and differences denote the mathematical sum or difference",
 "Whenever adding or subtracting two operands (constants, variables, monomials, polynomials, vectors or matrices of them, plain numbers, gonum vectors and matrices) returns a value, every entry of it is, as a polynomial in the variables and up to floating-point rounding, the entrywise sum or difference of the operands, a 1x1 operand counting for every entry. The result has the shape of the larger operand, and no entry or term is lost, duplicated or mixed up, whatever the order of the variables inside the terms.",
 ["inputs"],"all pairs of "+WF+", all shapes, term counts, variable orders and coefficient magnitudes",
 "Tests add a few short fixed expressions; like-term merging has to be right for every order of variables, number of terms and shape, and each of the 12x12 kind pairs has its own code path.",
 ALLEXPR+GLUE,[("like-term merging",S+"monomial.go MatchesFormOf, polynomial.go Simplify"),("VectorPlusTemplate, MatrixPlusTemplate",S+"vector_expression.go, matrix_expression.go"),("Minus as Plus of the (-1)-multiple",S+"expression.go")])

prop("S02","Products denote the matrix product, or scaling by a 1x1 factor",
 "Whenever multiplying two operands returns a value, it is, entry by entry as polynomials in the variables and up to floating-point rounding, their matrix product, or the other factor scaled when one factor is 1x1. The result has the shape of that product.",
 ["inputs"],"all pairs of "+WF+" whose dimensions allow the product, on either side plain numbers or gonum data",
 "Tests multiply small fixed operands, mostly squares and vectors of length 2 or 3; the exponent bookkeeping and the row/column indexing have to be right for all variable orders, term counts and rectangular shapes.",
 ALLEXPR+GLUE,[("exponent bookkeeping",S+"monomial.go Multiply"),("term-by-term product",S+"polynomial.go Multiply"),("MatrixMultiplyTemplate, VectorMultiplyTemplate",S+"matrix_expression.go, vector_expression.go")])

prop("S03","A non-negative integer power is the repeated product",
 "Raising a scalar, a length-one vector or a square matrix to an exponent n >= 0 yields the n-fold product of the base with itself; exponent 0 yields one or the identity matrix. Negative exponents, non-square matrices and longer vectors are refused by a panic, never answered.",
 ["inputs"],"all well-formed bases of every kind, exponents 0..8 and negative exponents",
 "Tests try a few bases with exponents up to 3 or 4; a wrong count, base or starting value shows only for particular exponents, base kinds and sizes.",
 ALLEXPR+GLUE,[("ScalarPowerTemplate",S+"scalar_expression.go"),("VectorPowerTemplate",S+"vector_expression.go"),("MatrixPowerTemplate",S+"matrix_expression.go")])

prop("S04","Derivatives are the exact partial derivatives, entry by entry",
 "Differentiating any expression with respect to a variable returns, in the same shape, the partial derivative of every entry as a polynomial; the derivative with respect to a variable that does not occur is zero. Repeating or mixing derivatives gives the higher and mixed partial derivatives.",
 ["inputs"],"all well-formed expressions of the 12 kinds, all variables occurring or not, repeated differentiation",
 "Tests differentiate single expressions of low degree; the power rule, term dropping and collapsing to simpler kinds depend on exponents, term counts and which entries vanish.",
 ALLEXPR,[("power rule and factor removal",S+"monomial.go DerivativeWrt"),("sum rule",S+"polynomial.go DerivativeWrt"),("entrywise lifting",S+"*_vector.go, *_matrix.go DerivativeWrt")])

prop("S05","Substituting for one variable is polynomial composition",
 "Replacing a variable by a scalar expression in a scalar, vector or matrix yields, in the same shape, the composition: every occurrence of the variable, at every power and in every entry, is replaced exactly once, also when the replacement contains that variable, and nothing else changes. An expression not containing the variable keeps its value.",
 ["inputs"],"all well-formed expressions, all variables, replacements that are constants, variables, monomials or polynomials, including ones containing the replaced variable",
 "Tests substitute simple values into short expressions; expansion of powers of multi-term replacements and self-referring replacements are not covered.",
 ALLEXPR+GLUE,[("Substitute",S+"variable.go, monomial.go, polynomial.go"),("VectorSubstituteTemplate, MatrixSubstituteTemplate",S+"vector_expression.go, matrix_expression.go")])

prop("S06","Substitution maps act simultaneously and deterministically",
 "Substituting according to a map replaces all mapped variables at the same time, in every entry of scalars, vectors and matrices and in both sides of constraints: replacements are not themselves rewritten, so swapping two variables works. The same call always denotes the same result, and mapping every variable to a number evaluates the expression at that point.",
 ["inputs","schedules"],"all well-formed expressions and constraints, all maps (swaps, cycles, chains, constants, empty) and all map iteration orders",
 "Go randomises map iteration; tests run each map once and use maps whose entries do not interact, so order-dependent results pass.",
 ALLEXPR+CON[:3]+[S+"utils.go"],[("SubstituteAccordingTo",S+"all kinds"),("map validation",S+"utils.go CheckSubstitutionMap")])

prop("S07","Simplification keeps the meaning and reaches a canonical form",
 "Simplifying any expression keeps the shape and the polynomial denoted by every entry. A simplified scalar has no zero and no like terms left (zero is the constant 0), and is a plain constant, variable or single term whenever it can be; simplifying again changes nothing.",
 ["inputs"],"all well-formed expressions incl. ones with cancelling, repeated, zero-coefficient and tiny-coefficient terms in any variable order",
 "Tests simplify a handful of short polynomials; cancellation and like-term detection depend on term order, variable order and magnitudes.",
 SCAL+ALLEXPR[4:]+GLUE,[("Simplify, AsSimplifiedExpression",S+"polynomial.go, monomial.go, *_vector.go, *_matrix.go"),("choice of the simplest kind",S+"expression.go ConcretizeExpression and its vector and matrix versions")])

prop("S08","No operation changes an expression or constraint that already exists",
 "After any sequence of operations, every expression, constraint, number slice or gonum object that was created earlier (operands, intermediate results, map values, both sides of constraints) still has exactly the contents it had when it was created. This includes operands that share storage with other live expressions. A list of variables, identifiers or dimensions that an operation on them returned belongs to the caller: overwriting it changes no existing object and no later answer.",
 ["histories"],"all finite sequences of public operations over a pool of live expressions and constraints, including slices with spare capacity and results fed back as operands",
 "Tests look at the returned value of one call and drop the operands; damage to an operand or to storage shared with an older result shows only in later steps of a history.",
 ALLEXPR+GLUE+CON[:3],[("copying before modifying",S+"monomial.go Copy, polynomial.go Copy"),("append to fresh slices",S+"throughout")],
 [("backing arrays of Exponents, VariableFactors, Monomials and of vectors and matrices","shared between operands and results","symbolic/*.go")],
 ["deep snapshots (including spare slice capacity) of every live object before and after each step"])

prop("S09","Shared expressions can be used from many goroutines at once",
 "Any number of goroutines may run any operations on the same existing expressions and constraints without synchronisation: no data race occurs and every call gives the result it gives when run alone. Goroutines that create variables in environments of their own do not interfere with each other.",
 ["schedules"],"all interleavings of concurrent read-style operations on shared expressions and of variable creation in separate environments",
 "All tests are sequential; a write to a shared backing array or to package-level state is invisible without concurrent use under a race detector.",
 ALLEXPR+GLUE+CON[:3]+[S+"basic_environment.go"],[("no writes to operands or package state",S+"all operations")],
 [("DefaultEnvironment","the only package-level mutable state",S+"basic_environment.go")],
 ["race detector reports and results of concurrent calls"])

prop("S10","Constant parts and linear coefficients are read off exactly",
 "The constant part of an expression is, entry by entry, its value when all variables are zero. Its linear coefficients with respect to a given list of variables are, entry by entry and in the order of the list, the coefficients of the degree-one terms in those variables (zero for a variable that does not occur, whatever else occurs), and without a list they follow the order of the expression's own variable list.",
 ["inputs"],"all well-formed scalars and vectors (constants of matrices too), all lists of variables in any order, partly or not at all occurring",
 "Tests use lists matching the expression; a missing variable, another order, several like terms or a product term with the variable exercises other paths.",
 ALLEXPR+[S+"polynomial_like_vector.go"],[("LinearCoeff, Constant",S+"monomial.go, polynomial.go, constant.go, variable.go"),("PolynomialLikeVector_SharedLinearCoeffCalc",S+"polynomial_like_vector.go")])

prop("S11","Transposing, indexing and stacking keep every entry in its place",
 "Entry (i,j) of a transpose is entry (j,i) of the original; reading entry (i,j), or entry i of a vector, returns exactly that entry; stacking expressions side by side or on top of each other returns all their entries in order, with the summed dimension. Reported dimensions always equal the actual number of rows and columns.",
 ["inputs"],"all well-formed expressions of every kind and shape (1x1, row, column, rectangular), all index pairs, stacks of one to several mixed-kind blocks",
 "Tests use few shapes and mostly square or tiny ones, where swapped or repeated indices go unnoticed.",
 ALLEXPR+GLUE+["smErrors/matrix_dimension_error.go"],[("Transpose, At, AtVec, Dims",S+"all kinds"),("HStack, VStack",S+"expression.go"),("ConcretizeVectorExpression, ConcretizeMatrixExpression",S+"vector_expression.go, matrix_expression.go")])

prop("S12","Conversions between kinds and gonum are lossless and detached",
 "Converting an expression to a wider kind, to the general scalar/vector/matrix/polynomial form, or between library constants, Go slices and gonum vectors and matrices keeps shape and value of every entry. A gonum operand or Go number in an operation gives the same result as the library constant of the same value, and writing afterwards into a gonum object or slice handed in to or obtained from a conversion or query does not change the expression. The constant vectors and matrices the library builds (zeros, ones, identity) have the stated entries every time and are the caller's own, and a copy of a term, polynomial or vector of variables has the value of the original and shares nothing with it.",
 ["inputs","histories"],"all well-formed expressions, all gonum vectors/matrices including views with a larger stride, all float and int slices, later writes to them",
 "Tests convert small contiguous data once and never write into the source or the result afterwards.",
 ["get/KMatrix/from.go","get/KVector/from.go"]+ALLEXPR+GLUE,[("From",  "get/KMatrix/from.go, get/KVector/from.go"),("DenseToKMatrix, VecDenseToKVector, ToDense, ToVecDense",S+"constant_matrix.go, constant_vector.go"),("ToMonomial*, ToPolynomial*, To*Expression, ToPolynomialLike*",S+"all kinds"),("ZerosVector, OnesVector, ZerosMatrix, OnesMatrix, Identity",S+"constant_vector.go, constant_matrix.go")])

prop("S13","Comparisons record exactly the stated relation, entry by entry",
 "A comparison of two operands (<=, >=, == or an explicit sense) returns a constraint whose left side, right side and sense are the ones stated, a scalar side of a vector or matrix comparison standing for that scalar in every entry. Reading one entry of a constraint, and flattening a list of constraints into scalar ones, returns for every entry, once and in order, the relation between the corresponding entries.",
 ["inputs"],"all pairs of operands the comparison accepts, all senses, all entries, all lists of scalar, vector and matrix constraints",
 "Tests check the type and sense of a few constraints and one entry; swapped sides, wrong sense or repeated entries for other kinds or shapes remain.",
 ALLEXPR+CON,[("Comparison, LessEq, GreaterEq, Eq",S+"all kinds"),("AtVec, At",S+"vector_constraint.go, matrix_constraint.go"),("CompileConstraintsIntoScalarConstraints",S+"constraint.go")])

prop("S14","Rewriting a constraint keeps its set of solutions",
 "Simplifying a scalar, vector or matrix constraint and scaling a scalar one by a non-zero factor return a constraint satisfied by exactly the same assignments of the variables, entry by entry; the simplified one has a plain number on the right, and AsSimplifiedConstraint leaves no constant term on the left. Substituting in a constraint substitutes in both sides and keeps the relation.",
 ["inputs"],"all well-formed constraints of the three shapes and senses, positive and negative factors, all assignments",
 "Tests compare one or two rewritten constraints textually; the solution set has to be kept for every sense, sign, constant placement and side kind.",
 CON,[("Simplify, ScaleBy, AsSimplifiedConstraint, Substitute, SubstituteAccordingTo",S+"scalar_constraint.go, vector_constraint.go, matrix_constraint.go")])

prop("S15","The matrix form of a linear constraint describes the same solutions",
 "For a linear scalar or vector constraint, the inequality representation (A, b) satisfies A x <= b, and the equality representation (C, d) satisfies C x = d, for exactly the assignments x of the listed variables that satisfy the constraint, row by row and column by column in the order of the variable list. Nonlinear constraints, the equality form of an inequality and the inequality form of an equality are refused by a panic.",
 ["inputs"],"all well-formed linear constraints with constants and variables on both sides, all senses, all variable lists containing the occurring variables in any order plus others",
 "Tests check a few constraints with fixed coefficients; the signs of A and b interact with sense, side and constant placement.",
 CON[:2]+[S+"polynomial_like_vector.go"],[("LinearInequalityConstraintRepresentation, LinearEqualityConstraintRepresentation",S+"scalar_constraint.go, vector_constraint.go")])

prop("S16","Implication claims are sound; nonnegativity recognition is exact",
 "When a constraint reports that it implies another, every assignment satisfying the first satisfies the second; for two linear scalar constraints in one and the same variable the answer is also complete (true whenever the implication holds, with variable and constants on any side and any nonzero coefficient). A scalar constraint with linear sides is reported as a nonnegativity constraint exactly when it is equivalent to one variable being >= 0; other constraints only if they are.",
 ["inputs"],"all pairs of well-formed constraints (one or several variables, linear and nonlinear, any senses, constants on either side), satisfiable assignments sampled",
 "Tests check chosen pairs; soundness is a statement over all pairs and all assignments, and sign and constant handling interact.",
 CON,[("ImpliesThisIsAlsoSatisfied",S+"scalar_constraint.go, vector_constraint.go, matrix_constraint.go"),("IsNonnegativityConstraint",S+"scalar_constraint.go")])

prop("S17","Ill-formed requests are refused, never answered",
 "An operation whose operands have incompatible dimensions, that receives an invalid operand (variable with lower bound not below its upper bound, term with mismatched exponents, empty polynomial, empty or ragged matrix of variables, monomials or polynomials) or an unsupported type, or an index outside the expression, panics (or, where the operation returns an error, reports one) instead of returning a value. The refusal states what is wrong (it is not a crash of Go's runtime, except for entry access relying on Go's bounds check), and one about dimensions names those of both operands. The validity check of an expression or constraint fails for exactly such malformed objects. Operations are arithmetic, comparisons, powers, stacking, entry access, linear coefficients, conversions, derivatives, substitutions (constants excepted, which look at neither the variable nor the replacement) and operations on constraints; mere queries (dimensions, degree, variable list) are not.",
 ["inputs"],"all operations with mismatched shapes, malformed objects of every kind nested anywhere, all out-of-range indices incl. negative ones, foreign types",
 "Tests try one malformed input per method, usually in the first position and with gross mismatches; guards have to hold for every position, shape and kind pair.",
 ALLEXPR+GLUE+CON[:3]+["smErrors/matrix_dimension_error.go","smErrors/out_of_bounds_error.go",S+"utils.go"],[("Check methods",S+"all kinds"),("CheckDimensionsIn*, CheckIndexOn*","smErrors/*.go"),("CheckSubstitutionMap, CheckDimensionsInComparison",S+"utils.go")])

prop("S18","Accepting an operation depends on kinds and shapes only",
 "If an operation is supported for some well-formed operands of given kinds and compatible dimensions, it completes for all such operands of these kinds: it never panics or fails to terminate because of particular coefficients, exponents, numbers of terms, variables or sizes. Every returned expression is itself well-formed: it passes its validity check, is recognised as an expression of its kind, reports its true dimensions and can be used in further operations.",
 ["inputs"],"all well-formed operands of each supported kind combination, incl. ones whose result cancels to zero, a constant or a single term",
 "Whether an entry cancels or collapses to another kind decides which internal conversion runs; tests never reach most of these combinations.",
 ALLEXPR+GLUE,[("conversions after simplification",S+"polynomial_matrix.go, monomial_matrix.go, variable_matrix.go, *_vector.go"),("ConcretizeExpression",S+"expression.go")])

prop("S19","Variables have unique identities that every operation preserves",
 "Within an environment every newly created variable (single, vector or matrix, continuous or binary) has an identifier different from all variables tracked there, is tracked exactly once, starts with the documented bounds and type, and has a name of its own among the variables the library names; environments do not affect each other. Every variable occurring in a result or listed by a query is one of the operands' variables, with its identifier, bounds, type, name and environment unchanged.",
 ["histories","inputs"],"all sequences of variable creation and tracking over several environments, all operations on variables with individual bounds, types and names",
 "Tests create a few variables in one environment; uniqueness is a property of creation histories, and metadata is not looked at after operations.",
 [S+"basic_environment.go",S+"environment.go",S+"variable.go",S+"variable_vector.go",S+"variable_matrix.go"]+[S+"monomial.go",S+"polynomial.go",S+"utils.go"],[("NewContinuousVariable, NewBinaryVariable, NewVariableVector, NewVariableMatrix",S+"variable*.go"),("TrackVariable",S+"basic_environment.go"),("UniqueVars, UnionOfVariables",S+"variable.go")],
 [("tracked variables of an environment","identity registry",S+"basic_environment.go")])

prop("S20","The printed text determines the expression",
 "The printed form of a scalar, vector or matrix expression, read back with the usual conventions (coefficient, juxtaposed variables, ^ for exponents, + and - between terms, entries in row order), is the same polynomial in every entry; a printed scalar constraint shows left side, relation and right side in this order.",
 ["inputs"],"all well-formed expressions of every kind and constraints, any coefficient signs and magnitudes and any exponents",
 "Tests check that certain substrings occur in the text of a few expressions; signs, unit coefficients, exponents and separators combine freely.",
 ALLEXPR+CON,[("String",S+"all kinds and constraints")])

prop("S21","Whole calculations built from the operations obey polynomial algebra",
 "Any calculation composed of additions, subtractions, products, powers, derivatives, substitutions, transposes and stackings denotes what the same calculation gives on ordinary polynomials, whatever intermediate kinds arise. In particular the algebraic laws hold between different ways of computing the same thing (commutative, associative, distributive and transpose laws, linearity and product rule of derivatives, evaluation commuting with arithmetic).",
 ["programs"],"all finite compositions of supported operations over scalars, vectors and matrices, e.g. x.Transpose().Multiply(Q).Multiply(x)",
 "Tests run single operations on hand-made operands; intermediate results in other kinds, unsimplified or with other variable orders arise only in longer calculations.",
 ALLEXPR+GLUE,[("kind changes between operations",S+"expression.go ConcretizeExpression and templates")])

prop("S22","Degree, variable lists and classification match the polynomial",
 "The degree of an expression is the largest total degree of its terms over all entries; its variable list contains every occurring variable exactly once and no other; it is reported linear (quadratic) exactly when its degree is at most one (two), and constant exactly when it has no variables. A constraint lists the variables of both sides exactly once and is linear exactly when both sides are.",
 ["inputs"],"all well-formed expressions and constraints of every kind without zero-coefficient terms, any number of variables and exponents",
 "Tests classify a few expressions; maxima over terms and entries and duplicates across entries depend on their order and number.",
 ALLEXPR+[S+"expression.go",S+"polynomial_like.go",S+"constraint.go"],[("Degree, Variables, IsConstant",S+"all kinds"),("IsLinear, IsQuadratic, NumVariables, VariableIDs",S+"expression.go"),("VariablesInThisConstraint",S+"constraint.go")])

prop("S23","Public checks, recognisers, list helpers and templates give exact answers",
 "The public dimension checks (addition, subtraction, multiplication, comparison, stacking) and index checks pass exactly for compatible dimensions (a 1x1 operand is compatible with everything in arithmetic and comparisons) and indices inside, for any object that has dimensions, and otherwise return an error naming the operands' dimensions or the index. The substitution-map check passes exactly for valid variables mapped to valid scalar expressions, the sense check exactly for the three senses. A value is recognised as scalar, vector, matrix, polynomial-like expression or constraint exactly if it is one (library kinds, float64, gonum vectors and matrices), and the corresponding conversion succeeds exactly then, with the same value. Searching a list finds an element exactly if it is there, at its place; removing duplicates keeps every element once. The generic templates for sums, products, powers and substitution, and the builders of vectors and matrices from lists of scalars, give entry by entry what the operation denotes and refuse ragged, empty or mismatched input.",
 ["inputs"],"all dimensions and indices incl. very large and negative ones, Go values of any type, lists and maps of any length, all kinds of entries",
 "Tests call most helpers once or not at all; the operations rely on them for every shape, kind and position.",
 ["smErrors/matrix_dimension_error.go","smErrors/vector_dimension_error.go","smErrors/out_of_bounds_error.go","smErrors/matrix_like.go"]+[S+f for f in ("utils.go","expression.go","scalar_expression.go","vector_expression.go","matrix_expression.go","polynomial_like.go","polynomial_like_scalar.go","polynomial_like_vector.go","polynomial_like_matrix.go","constr_sense.go","constraint.go")],[("CheckDimensionsIn*, CheckIndexOn*","smErrors/*.go"),("FindInSlice, Unique, CheckSubstitutionMap",S+"utils.go"),("Is*, To*",S+"expression.go, *_expression.go, polynomial_like*.go, constraint.go"),("*Template, Concretize*",S+"*_expression.go")])


with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
