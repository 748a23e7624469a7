# -*- coding: utf-8 -*-
"""How each property is decided (for DESIGN.md)."""
NOTES = dict(
C01='`scale_exchange` has one contract per kind of distribution: the postconditions state every field of the result as a function of the old exchange and the factor (polynomial arithmetic over reals, sign cases, zero, one). The contract of the caller (`EScale` summary) is what other properties use.',
C02='The generator `iterate_all_uncertainties` and each `repair`/`recalculate` are executed symbolically for one generic object at each of the four levels (exchange, production volume, property, parameter); log and sqrt are axiomatised (log(exp x), monotonic, sign). The pedigree variance is used by its own contract, a sum of table values.',
C03='Postconditions for every exchange of a list of any length: amount divided by |amount of the product|, nothing else changed; refusals are separate obligations.',
C04='Result compared, exchange by exchange (generic element and the chosen one), with the source; `deepcopy` gives fresh objects, so that the source staying unchanged is an obligation.',
C05='Pandas columns are modelled as unbounded vectors; revenue and true value shares are sums over vectors; the two allocation columns are proved equal to the documented formula and to sum to one (real arithmetic with sums as opaque terms related by linearity).',
C06='Waste treatment and recycling are proved against the contracts of scaling and economic allocation.',
C07='Subdivision is proved with `recalculate` as a contract; the merge of groups of parts is a fold over a list of datasets, which the summaries do not express, hence bounded.',
C08='The documented decision tree is written as an independent specification over counts of exchanges; equality of labels is proved for every dataset.',
C09='Claimed volumes are sums over all exchanges of all datasets; proved as equality of two nested sums with filters.',
C10='Each of the small functions is proved separately, with frame conditions for everything it does not mention.',
C11='Frame and filters are proved; the volume of the rest of the world is a maximum over sums per group (bounded).',
C12='The selection of suppliers goes through sets of faces. The oracle computes coverage from the raw geographic data with plain set operations, independent of `Topology`.',
C13='Shares are proved with sums over suppliers of any number: each input is product times its share; the sum of shares is one.',
C14='The oracle selects suppliers by brute force over all places from the raw geographic data; the arithmetic of splitting is proved.',
C15='The oracle is plain set algebra over the raw geographic data for 23 places with all relevant relations between them (containing, overlapping, disjoint, RoW, GLO, renamed).',
C16='Codes are proved with the hash as an uninterpreted function of six fields; the resolution of links by quantified pre/postconditions over all datasets (exactly one match, none, several).',
C17='For each gate: exception if and only if the rule is broken, and nothing changed, for lists of any length.',
C18='Filters and deletions stated for every exchange.',
C19='Flips and renames stated for every exchange; creation of datasets as list contents (filter, map, concatenation).',
C20='The interpreter (asteval, bw2parameters) is external: it is replaced by a stand-in returning arbitrary values by name, and the proof is that each object with a formula receives the value for it, everything else is unchanged. With the real interpreter the values are checked against an own evaluator (bounded).',
C21='Iteration over all formulas is proved; the rewriting uses regular expressions, uninterpreted in the proofs. The meaning is checked on random formulas of a grammar (ecoinvent syntax) against an own evaluator (bounded).',
C22='The market step is proved against the contract of scaling: for each dataset the result equals the source with exactly the exchanges of the documented case flipped.',
C33='Contracts on whole runs: undefined datasets are generated with producers, markets, by-products, wastes, recyclables, joint and constrained production, links, formulas and uncertainty, or with one of eleven flaws; the postconditions compare the delivered data with the undefined data (balance of every flow per activity) and with each other (links, shares, volumes), and flawed data must stop the run with the documented error. Leaving out any step of a configuration that concerns such data fails one of them (48 of 63 steps of cutoff and 32 of 38 of consequential were noticed when left out one at a time; the others are named exceptions for single ecoinvent activities, repeated steps, or labels a later step also sets). Concrete execution only.',
C23='Flips proved; the step writing to two datasets at once aliases elements of an outer list, which the summaries refuse: bounded, against an independent description of the result.',
C24='The choice of technology level is proved as a case distinction over existence of suppliers of each level.',
C25='Same oracle as C14; volumes of nested groups are computed recursively by the oracle.',
C26='Wrapper, filter and collection are proved for any functions (uninterpreted) and any data; whole runs bounded in a scratch directory.',
C27='Strategies are proved for all integers with string parsing of the documented forms modelled; other texts bounded.',
C28='File system calls are replaced by stand-ins returning arbitrary times and lists; freshness is then an obligation over all files.',
C29='XML elements are replaced by stand-ins with arbitrary children and attributes (each concrete run builds real lxml elements instead); each field of the result is proved to be the stripped text or parsed value, optional ones present iff the element is.',
C30='Each exchange list is proved to be filter and map of the source, with the arithmetic of signs.',
C31='Runs with generated functions; log and HTML are parsed back and compared with what was run. Histories are short (up to 6 functions).',
C32='`shutil.rmtree` and the directory listing are stand-ins which record what would be deleted; nothing is deleted in a proof, and concrete runs use a scratch directory.',
)
TAIL = '''
## Choices that matter for soundness

* Stand-ins (`V.call_in`) replace external objects (operating system, XML elements, interpreter) by arbitrary values. Their interface is what the code uses today;
  an attribute the stand-in lacks makes the contract undecided, it never raises an alarm.
* Lists built by comprehensions are compared in an expanded canonical form (concatenation, filter, map); a different but equivalent way of
  building them that the form does not identify is undecided (`unknown`) or, if z3 refutes it, is replayed on the real code first.
* A loop whose effect cannot be summarised is never approximated.
* Ids of exchanges and datasets are assumed distinct where the code compares whole dictionaries (removal by `!=`).
* Numbers are reals, integers in `SaveStrategy` are integers; division by zero of numpy columns gives inf as in numpy, in plain Python an exception.
* The rest of the world is not subtracted when consumers are linked (pinned by existing tests), so C14 takes it as specified.
* `asteval`, `bw2parameters`, `lxml`, `pandas`, `constructive_geometries`, `wrapt`, `toolz` and the file system are trusted.

## Behaviour seen and not claimed

`adjust_market_signs_for_allocatable_products` needs one product with a byproduct classification in each market; `a%` after a variable becomes `ae-2` (percent signs are assumed to follow numbers); unbalanced `if(` raises ValueError (pinned);
an empty source directory breaks pyprind; `Lognormal.rescale` needs a non-zero amount. These are preconditions of the contracts.

## Functions without a contract

`to_stats_arrays`, `adjust_pedigree_matrix_time`, `validate_ecospold2`, `DatasetJsonFormatter`, `missing_formulas`,
`import_into_brightway2`: unused by the system models, or thin wrappers around external libraries.

## Checking the checks

`tools/seed.py` makes the planted bugs of `/verif/seeded` from specifications (`tools/bugs/*.py`) and confirms each (existing tests pass, the demonstration fails with the change only);
`tools/runseeds.sh` runs the check of the property against each. `check.py --selftest` (the setup command) verifies small contracts known to be true and to be false
(`contracts/selftest.py`) and fails if a false one is proved or a true one refuted. It holds the defects of the verifier found while refactoring the code:
two sets grown by one loop shared the name of a bound variable, so that `ys - xs` was read as `ys if xs is empty`.
'''
