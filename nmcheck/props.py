"""The properties: statement, anchors, and the slice of the program each one
speaks about.  `fn` lists functions as module:name name ...; `glob` lists
module-level names; `cls` lists classes whose structure matters."""

P = {}


def prop(pid, title, statement, qtext, why, mech, fn=(), glob=(), cls=(), over=("inputs",), rule=""):
    P[pid] = dict(title=title, statement=statement, over=list(over), qtext=qtext, why=why, mech=mech,
                  fn=[tuple(x.split(":")) for x in fn], glob=[tuple(x.split(":")) for x in glob],
                  cls=[tuple(x.split(":")) for x in cls], rule=rule)


def expand(entries):
    for mod, names in entries:
        for n in names.split():
            yield mod, n


TC, CCORE, CC = "tensormethod.core", "completions.core", "completions.completions"

prop("P01", "Conjugation is the charge-conjugation map and an involution",
     "Conjugating any field, indexed field or completion field negates every charge, exchanges dotted with undotted "
     "and colour with anticolour indices, leaves isospin and generation indices alone and toggles the conjugation mark. "
     "Every other attribute - label, statistics, symmetry, number of flavours, derivatives, latex, and the recorded field below a derivative - "
     "is carried over consistently, so conjugating twice returns an equal field of the same class.",
     "all fields, indexed fields, completion fields and index lists, barred or not, conjugated or not, with and without derivatives",
     "tests conjugate a handful of Standard Model fields once; they never compare every attribute, never conjugate twice and never reach derivative or completion fields",
     [("conjugation of fields, indices and completion fields", "tensormethod/core.py, completions/core.py")],
     fn=[TC + ":Index.conj Index.conj_index_string Index.__neg__ Field.conj IndexedField.conj conj_stripped Field.label_with_dagger IndexedField.field Field.__call__",
         CCORE + ":ComplexScalar.__init__ RealScalar.__init__ MajoranaFermion.__init__ VectorLikeDiracFermion.__init__ VectorLikeDiracFermion.conj VectorLikeDiracFermion.conj_indices MajoranaFermion.conj_indices RealScalar.swap_colour_indices"])

prop("P02", "Mass terms pair a field with the right partner into a singlet",
     "The mass term of an exotic multiplies the field with its partner: the conjugate for a complex scalar, the vector-like partner for a Dirac fermion, "
     "the field itself with exchanged colour indices for a self-conjugate scalar or Majorana fermion. "
     "A distinct partner carries opposite charges, the conjugate colour representation, the same isospin and Lorentz representation, and the epsilon tensors supplied "
     "contract exactly the SU(2) indices left open.",
     "all exotic fields of the four completion field kinds and every SU(2) index content",
     "no test builds mass terms for all field kinds and representations, and a wrong charge or index on the partner does not raise",
     [("partners, lowering of SU(2) indices and mass terms", "completions/core.py")],
     fn=[CCORE + ":FieldType.lower_su2 ComplexScalar.mass_term RealScalar.mass_term RealScalar.swap_colour_indices MajoranaFermion.majorana_partner MajoranaFermion.mass_term VectorLikeDiracFermion.dirac_partner VectorLikeDiracFermion.mass_term FieldType.indexed_field",
         TC + ":eps delta Index.__neg__"])

prop("P03", "Derived copies of a field keep all of its attributes",
     "Every operation that derives a field from another one - indexing a field, taking the field of an indexed field, substituting or refreshing indices, "
     "converting to and from completion fields, and copying - carries over label, charges, conjugation, statistics, symmetry, flavours, derivatives, "
     "latex and derivative bookkeeping unchanged, except for what the operation is documented to change. "
     "Deep copies are equal to and of the same class as the original.",
     "all fields, indexed fields, completion fields, operators and completions",
     "tests sample few attributes of few fields; a dropped keyword silently falls back to a default value",
     [("constructors and re-constructions of fields", "tensormethod/core.py, completions/core.py")],
     fn=[TC + ":Field.__init__ Field.__call__ Field.fresh_indices IndexedField.__new__ IndexedField.__init__ IndexedField.field IndexedField.substitute_indices IndexedField.substituted_indices IndexedField.__deepcopy__ Operator.__deepcopy__ Index.__deepcopy__ Operator.__init__ Operator.__new__",
         CCORE + ":FieldType.__new__ FieldType.indexed_field FieldType.__deepcopy__ VectorLikeDiracFermion.__deepcopy__ Completion.__deepcopy__ cons_completion_field ComplexScalar.__init__ RealScalar.__init__ MajoranaFermion.__init__ VectorLikeDiracFermion.__init__ Completion.__init__ EffectiveOperator.__init__"],
     cls=[TC + ":Field IndexedField Index Operator", CCORE + ":FieldType ComplexScalar RealScalar MajoranaFermion VectorLikeDiracFermion Completion EffectiveOperator"])

prop("P04", "Equal objects hash equally, and equality sees every distinguishing attribute",
     "Two fields, indexed fields or completions compare equal exactly when they have the same class and the same distinguishing attributes, "
     "and objects that compare equal have the same hash whatever the order in which charges or exotics were inserted. "
     "Comparison with an object of another kind is false rather than an error.",
     "all pairs of fields, indexed fields and completions, whatever the insertion order of their charges and exotics",
     "hash consistency quantifies over pairs of equal objects built along different routes; tests never build such pairs",
     [("equality and hashing", "tensormethod/core.py, completions/core.py")],
     fn=[TC + ":Field.__eq__ Field.__hash__ Field._dict IndexedField.__eq__ IndexedField.__hash__ IndexedField._dict IndexedField.__lt__ IndexedField.pmatch_data Index._dict Operator._dict Operator.is_equivalent_to",
         CCORE + ":FieldType.__hash__ Completion.__eq__ Completion.__hash__ EffectiveOperator.__hash__"],
     cls=[TC + ":Field IndexedField Index Operator", CCORE + ":FieldType Completion EffectiveOperator"])

prop("P05", "Charges add up and the exotic balances its term",
     "The charges of a product of fields are the sums of the factors' charges, for every charge that exists. "
     "The exotic introduced when two or three fields are contracted carries the summed charges and the open indices of the contracted fields, and its partner in the recorded term "
     "carries the opposite hypercharge, so that the whole term is neutral.",
     "all products of fields and all pairs and triples of contracted fields with arbitrary charges",
     "tests check the outcome for a few operators; a charge lost for some key or some number of factors passes them",
     [("field products and introduction of exotics", "tensormethod/core.py, completions/completions.py")],
     fn=[TC + ":Field.__mul__ Field.walked decompose_product get_dynkin Field.__init__ IndexedField.__mul__ Operator.__mul__ normalise_operator_input",
         CC + ":exotic_field_and_term check_charges check_singlet contract",
         CCORE + ":cons_completion_field ComplexScalar.__init__ VectorLikeDiracFermion.dirac_partner"])

prop("P06", "Every interaction term of a completion is checked to be a singlet",
     "No interaction term enters a completion unless it has passed the singlet check on every path leading there: hypercharge and all other non-ignored charges sum to zero and no Lorentz, "
     "colour or isospin index is left open. "
     "The check raises for every violating term, whatever the number of fields, and is applied again after derivatives have been processed.",
     "all partitions of all operators, and all paths through the contraction of a partition",
     "tests run a few operators whose terms happen to be singlets, so an omitted or weakened check is invisible to them",
     [("singlet checks dominating every recorded term", "completions/completions.py")],
     over=("inputs", "programs"),
     fn=[CC + ":check_charges check_singlet exotic_field_and_term contract replace_and_mutate construct_completion process_derivative_term partition_completion separate_gauge_epsilons is_contracted_epsilon get_lorentz_epsilons",
         TC + ":Operator.free_indices Operator.indices_by_type Index.indices_by_type Index.index_type"])

prop("P07", "A failed contraction never becomes a completion",
     "Whenever any step of completing a partition fails, the failure reason is propagated unchanged up to the partition and the result is a recorded failure, not a completion. "
     "Only genuine completions are yielded to the caller, and every partition that does succeed is yielded exactly once with its own exotics, terms, graph and topology.",
     "all partitions, at whichever step and nesting depth the failure occurs",
     "failure paths depend on which contraction vanishes; tests only count successful completions of a few operators",
     [("propagation of failure reasons through contractions", "completions/completions.py")],
     fn=[CC + ":contract exotic_field_and_term replace_and_mutate reduced_row contains_only_leaves construct_completion partition_completion operator_completions process_derivative_term",
         CCORE + ":FailedCompletion.__init__ Completion.__init__"])

prop("P08", "Derivatives change the Lorentz representation only, and are undone exactly",
     "Acting with a derivative changes each half of the Lorentz representation by one unit, raises the derivative count by one and leaves the gauge representation, charges, statistics, conjugation and flavours alone; "
     "the field below the derivatives is remembered so that stripping restores it. "
     "A derivative on any other target representation is rejected, and the mass dimension counts each derivative once.",
     "all fields, all target representations and repeated derivatives, conjugated or not",
     "tests apply a derivative to a few fields and never strip a conjugated or repeatedly differentiated field",
     [("derivative construction and stripping", "tensormethod/core.py, completions/utils.py, completions/completions.py")],
     fn=[TC + ":D Field.mass_dim IndexedField.strip_derivs IndexedField.strip_derivs_with_indices IndexedField.gauge_indices conj_stripped Field.get_latex Operator.mass_dim",
         "completions.utils:allowed_lor_dyn", CCORE + ":EffectiveOperator.mass_dimension EffectiveOperator.topology_type EffectiveOperator.fields EffectiveOperator.indexed_fields",
         CC + ":operator_strip_derivs construct_operator derivative_combinations deriv_operator_completions process_derivative_term completions",
         "tensormethod.parse_hs:deriv_possibilities", "tensormethod.utils:strip_parens is_linear_in_deriv is_deriv_in is_fieldstrength_in"])

prop("P09", "Library calls do not mutate shared state",
     "Calling the library never changes the arguments it was given, default argument values, module-level tables or the shared Standard Model fields, except where mutation is the documented purpose of the call. "
     "Repeating a call with equal arguments therefore gives the same result, whatever was called before.",
     "all call sequences over the public functions",
     "mutation of shared state shows up only in later calls; tests run each function in one order only",
     [("absence of writes to parameters, defaults and globals", "all modules")],
     over=("histories", "inputs"), rule="effects")

prop("P10", "Every name on every path resolves",
     "On every path of every function, each name that is used is bound: it is a local assigned on all paths, a parameter, a global of its module, an import that exists, or a builtin. "
     "Every import of a name from another module of the package refers to something that module defines, and calls pass only arguments their target accepts.",
     "all statements of all modules, including error paths, scripts and rarely used branches",
     "an unresolved name raises only when its line runs; tests run a fraction of the lines",
     [("name binding, imports and call signatures", "all modules")],
     over=("programs",), rule="names")

prop("P11", "The Standard Model fields carry the Standard Model quantum numbers",
     "Each Standard Model field has its correct Lorentz, colour and isospin representation, hypercharge, baryon number, statistics and number of generations: in particular "
     "every gauge-invariant Yukawa coupling is neutral, and the gauge anomalies of one generation cancel. "
     "All gauge and Lorentz labels derived from these fields agree with that table.",
     "all Standard Model fields and every quantum number",
     "tests use the fields but a wrong baryon number, statistic or field-strength representation is not visible in them",
     [("Standard Model field definitions", "tensormethod/sm.py")],
     fn=[TC + ":Field.__init__ Field.y Field.dynkin_ints Field.lorentz_irrep Field.sm_irrep Field.colour_irrep Field.isospin_irrep Field.quantum_numbers Field.is_scalar Field.is_boson Field.is_left_fermion Field.is_right_fermion Field.is_fermion Field.is_vector Field.is_singlet Field.is_sm_singlet Field.mass_dim Field.label_with_dagger Field.__repr__ Field.qn_string Field.__str__"],
     glob=["tensormethod.sm:NF L Q eb ub db H G Gb W Wb B Bb LNV_OPERATORS", TC + ":CHARGES FERMI BOSE"], rule="sm")

prop("P12", "Every catalogued operator violates lepton number by two and is a singlet",
     "Every operator in the catalogue - packaged or defined in code, with or without derivatives - has zero hypercharge, zero baryon number, lepton number two and odd mass dimension; "
     "every isospin index appears once on a field and once on an epsilon, and the colour and Lorentz indices left open admit a singlet. "
     "The catalogue lists every derivative-free field content of dimension five to eleven that admits an invariant (the thrice primed Weinberg operator apart), "
     "each packaged content with every non-vanishing isospin structure exactly once, and the field content listed for a label agrees with the operator stored under it.",
     "all catalogued operators and their variants",
     "tests touch a few operators; an altered table entry keeps everything running and silently changes physics",
     [("operator catalogue and field-content table", "completions/operators.py, tensormethod/lnv.py, packaged operator data")],
     fn=["completions.operators:prod", TC + ":Operator.BL_classification Operator.contains_derivative Operator.from_pickle_form"],
     glob=["completions.operators:EFF_OPERATORS DERIV_EFF_OPERATORS o1 o2 o3a o3b o4a o4b o5a o5b o6a o6b o7 o8 o61a o71 o76 o82 oyec oydc prime prime_prime prime_prime_prime pickle_form_ops pickle_form_deriv_ops",
           "tensormethod.lnv:bl_list BL_LIST", "tensormethod.sm:LNV_OPERATORS"], rule="catalogue")

prop("P13", "The Hilbert-series tables list only allowed ΔL=2 field contents, read faithfully",
     "Every monomial of the lepton-number-violating Hilbert series has the mass dimension of its table, zero hypercharge, zero baryon number and lepton number two, and its coefficient is the number of independent invariants of that content "
     "for every number of flavours; no content that admits an invariant is missing from a table. "
     "Reading the series maps every symbol to the field of that name, keeps every monomial, the powers of fields and derivatives, and distributes each derivative over the fields by the product rule.",
     "all monomials of all tables and all series expressions",
     "tests only count terms of one table; a mapped-away symbol or dropped monomial of another table is unseen",
     [("series tables and their reader", "tensormethod/hs.py, tensormethod/parse_hs.py, tensormethod/deriv_operators.py")],
     fn=["tensormethod.parse_hs:distribute_derivatives is_number is_field is_deriv is_term proc_number proc_field proc_deriv is_sum is_symbolic_deriv no_numbers deriv_possibilities proc_term proc_sum parse_hs parse",
         "tensormethod.deriv_operators:remove_unwanted_deriv_structures keep_longest_invariants longest_deriv_invariants label_operators",
         "tensormethod.operatorxcheck:list_invariants"],
     glob=["tensormethod.parse_hs:FIELD_LOOKUP H7_LNV_NF3 H9_LNV_NF3 H11_LNV_NF3", "tensormethod.hs:H6 H7_LNV H9_LNV H11_LNV Nf D H Hd L Ld Q Qd eb ebd ub ubd db dbd G Gb W Wb B Bb X",
           "tensormethod.deriv_operators:deriv_operator_names"], rule="hilbert")

prop("P14", "Operator closures conserve charge and end in a neutrino mass",
     "Each closure rule replaces fields by fields and constants such that electric charge, baryon number and lepton number are unchanged up to the final pair of neutrinos, and rules are tried in their stated order until nothing changes. "
     "Every constant a rule can produce is understood by the numerical estimate, and an expression with a field left over is discarded rather than turned into an estimate.",
     "all closure rules and all operators whose SU(2) structure is expanded",
     "tests compare the estimate of some operators; a rule that fires rarely, or a wrong constant, is not exercised",
     [("closure rules, rewriting and estimates", "database/closures.py, database/utils.py")],
     fn=["database.closures:apply_rules fixed_point clean parse_operator neutrino_mass_estimate numerical_np_scale_estimate numerical_mv",
         "database.utils:get_leading_mv estimate_np_scale loop_data table_data"],
     glob=["database.closures:RULES Op Const c e nu u d h0 hp db ub eb W ye yu yd v nunu g2 loop loopv2 RST h l q hc lc qc eps"], rule="closures")

prop("P15", "The U(1) symmetry matrix has one signed row per interaction term",
     "The charge matrix of a Lagrangian has a row for every term that involves an exotic and for each Standard Model Yukawa coupling, with the multiplicity of each field counted positively and of its conjugate negatively, in the column of that field. "
     "The number of symmetries reported is the dimension of its null space over all exotics and Standard Model matter fields, and no term, mass terms included, is left out.",
     "all sets of exotics and interaction terms",
     "the tests evaluate two Lagrangians; a wrong sign or column for another field content is not seen",
     [("Lagrangian terms and symmetry matrix", "tensormethod/lagrangian.py")],
     fn=["tensormethod.lagrangian:clean_fields Lagrangian.__init__ Lagrangian.terms Lagrangian.u1_symmetries Lagrangian.num_u1_symmetries Lagrangian.generate_full term_to_row generate_uv_terms contains make_coupling npoint_terms npoint_fieldstrings prod_mass_dim generate_fieldstrings",
         "tensormethod.smeft:prod_mass_dim generate_operators"],
     glob=["tensormethod.smeft:SM FIELDS"],
     cls=["tensormethod.lagrangian:Lagrangian"])

prop("P16", "Topologies, graphs and field assignments stay consistent",
     "Each topology partition is paired with the graph of the same topology, every leaf of the partition is an external vertex of that graph and every external vertex a leaf, the numbers of scalar and fermion leaves are those in its file name, and the packaged topologies of one leaf content are all trees of renormalisable vertices with an internal line, each exactly once. "
     "Furnishing a topology assigns every field of the operator to exactly one leaf of its kind in every distinct way, without duplicates, and labels exactly the external edges.",
     "all packaged topologies and all operators' field contents",
     "tests furnish a few topologies; a mismatched data file or dropped assignment for another topology is not reached",
     [("topology data, pairing and furnishing", "completions/topologies.py, completions/completions.py, packaged topology data")],
     fn=["completions.topologies:read_topology_file eval_partition eval_graph get_topology_data",
         CC + ":replace replace_fields quick_remove_equivalent_partitions distribute_fields node_dictionary set_external_fields indexed_fields_with_counters partitions are_equivalent_partitions graph_fingerprint remove_isomorphic get_connecting_edge replace_and_mutate partition_completion",
         "completions.utils:flatten chunks", CCORE + ":EffectiveOperator.topology_type",
         "completions.tikzfeynman:skeleton tikz_type proc_body tikz_export tikz_export_generic export_completion"],
     glob=["completions.topologies:TOPOLOGY_PATH PARTITIONS DIAGRAMS GRAPHS"],
     cls=["completions.topologies:Leaf"], over=("inputs", "configurations"), rule="topologies")

prop("P17", "An exported completion reads back as the same completion",
     "The text exported for a completion evaluates, in the database's name space, to an equal completion: every constructor it names exists there and accepts every argument written, every attribute that distinguishes fields, operators, graph, partition, terms and topology is written, and summary data agree with the completion itself. "
     "The structured export contains the same parts.",
     "all completions, including conjugated, derivative, barred and self-conjugate fields",
     "the test exports a couple of completions; a dropped attribute matters only for other field kinds",
     [("export and re-reading", "database/export.py, database/json_serialiser.py, database/database.py")],
     fn=["database.export:export_tensor export_operator proc_dicts export_graph proc_partition export_partition export_terms export_exotics export_completion",
         "database.json_serialiser:export_tensor export_eff_operator export_partition export_graph export_operator export_terms export_exotics export_completion",
         "database.database:Partition LazyCompletion.__init__ LazyCompletion.force read_completions LazyCompletion.quantum_numbers LazyCompletion.operator_name",
         CCORE + ":cons_completion_field", "utils.functions:stringify_qns"],
     glob=["database.database:ExoticField"], over=("inputs", "histories"), rule="export")

prop("P18", "Quantum-number strings are faithful and conjugation of strings matches fields",
     "The string written for a field determines its Lorentz kind, colour, isospin, hypercharge and baryon number, Standard Model fields being named with their conjugation mark. "
     "Conjugating a string or a term of strings gives the string of the conjugate: colour reversed, charges negated, names marked or unmarked, applied twice it is the identity.",
     "all field strings and terms",
     "tests do not conjugate strings of coloured, negatively or fractionally charged fields",
     [("quantum-number strings", "utils/functions.py, completions/core.py")],
     fn=["utils.functions:stringify_qns negate_u1 conjugate_field conjugate_term", CCORE + ":format_quantum_numbers Completion.exotic_info Completion.exotic_fields Model.__init__ Model.exotic_numbers Model.__repr__",
         TC + ":Field.qn_string Field.label_with_dagger Field.__repr__"], rule="strings")

prop("P19", "Prime numbering identifies models and terms uniquely",
     "Distinct exotics, and distinct terms up to conjugation, receive distinct primes while a field or term and its conjugate receive the same one, and every item that occurs receives one. "
     "The characteristic number of a model or completion is the product of its items' primes, and removal of duplicates keeps exactly one representative for each number and topology.",
     "all collections of models and completions, in every order",
     "collisions depend on which fields occur and in which order; tests hold a few models",
     [("prime registries and characteristic numbers", "completions/completions.py, database/database.py, database/pickler")],
     fn=[CC + ":prime_registry model_registry cons_term_prime_dict completion_characteristic_number clean_completions filter_completions collect_completions collect_models",
         "completions.utils:factors", "database.database:ModelDatabase.__init__ ModelDatabase.democratic_model_number ModelDatabase.stringent_model_number ModelDatabase.model_number ModelDataFrame.new",
         "utils.functions:conjugate_field conjugate_term stringify_qns", "database.pickler__script:data_dict get_scalars_fermions field_options one_loop_democratic_nums"],
     over=("inputs", "histories"))

prop("P20", "Filtering removes exactly the models implied by more important operators",
     "A model is removed from an operator only when its number is divisible by that of a model of a more important operator - higher mass scale, or lower dimension - and models of equally or more important operators are never removed. "
     "Operators are processed in order of decreasing importance, the ordering covers exactly the operators present, and the seesaw filter removes exactly the models containing a seesaw field.",
     "all databases, both philosophies and both criteria",
     "the tests do not build a database with competing operators; direction, ties and order of processing are unobserved",
     [("ordering and filtering of the model database", "database/database.py")],
     fn=["database.database:ModelDatabase.filter_model_by_mass ModelDatabase.filter_models_by_mass ModelDatabase.filter_by_mass ModelDatabase.filter_model_by_dimension ModelDatabase.filter_models_by_dimension ModelDatabase.filter_by_dimension ModelDatabase.filter ModelDatabase.fill_scale_dict ModelDatabase.order_by_mass ModelDatabase.order_by_dimension ModelDatabase.order ModelDatabase.process ModelDatabase.no_seesaws ModelDatabase.filter_one_loop_weinberg ModelDatabase.is_democratic ModelDatabase.is_stringent ModelDatabase.is_mass ModelDatabase.is_dimension ModelDatabase.model_number ModelDatabase.democratic_model_number ModelDatabase.stringent_model_number ModelDatabase.remove_equivalent_models ModelDatabase.democratic_remove_equivalent_models ModelDatabase.stringent_remove_equivalent_models LazyCompletion.contains_field match matches_in",
         CC + ":filter_completions model_registry prime_registry", "completions.utils:factors", CCORE + ":EffectiveOperator.mass_dimension"],
     over=("inputs", "configurations"))

prop("P21", "Grouping, merging, querying and forcing lose and invent no models",
     "Collecting completions into models, merging data files, forcing lazily read completions and querying keep every entry of every operator under its own key, each exactly once, entries of the same key being joined rather than replaced. "
     "Forcing happens at most once, a query selects exactly the models satisfying its predicate, and a table row's related models are exactly those whose number is a proper sub-product of the row's own.",
     "all lists of completions in every order, all sets of data files and all predicates",
     "loss occurs when equal keys are not adjacent or occur in several files, which tests do not arrange",
     [("grouping, merging and querying", "completions/completions.py, database/database.py")],
     fn=[CC + ":collect_completions collect_models", "database.database:read_completions ModelDatabase.__init__ ModelDatabase.force ModelDatabase.query ModelDatabase.filter_by_query LazyCompletion.force LazyCompletion.quantum_numbers LazyCompletion.operator_name LazyCompletion.contains_field LazyCompletion.contains_interaction match matches_in ModelDataFrame._constructor ModelDataFrame.new ModelDataFrame.completion ModelDataFrame.related_models ModelDatabase.no_seesaws",
                                                       "database.utils:subsets", "database.pickler__script:data_dict get_scalars_fermions field_options"],
     cls=["database.database:LazyCompletion ModelDataFrame ModelDatabase"], over=("inputs", "histories"))

prop("P22", "Index letters, kinds and representations agree everywhere",
     "The letter of an index determines its kind, dimension and invariant tensor in every part of the library: parsing an index, counting the representation of an index list, constructing epsilons and deltas, and generating fresh indices all use the same correspondence and the same order of kinds. "
     "Indices of the wrong kind, number or height are rejected when a field is indexed or an invariant tensor built, and an index never occurs unnoticed with two kinds.",
     "all index strings and representations",
     "tests index a few fields correctly; rejection of inconsistent indices for each kind and height is not exercised",
     [("index tables, parsing and invariant tensors", "tensormethod/core.py")],
     fn=[TC + ":Index.__new__ Index.__init__ Index.__neg__ Index.index_type Index.dynkin Index.get_dynkin_labels Index.get_tensor_index_types Index.get_index_types Index.get_index_labels Index.fresh Index.fresh_indices Index.get_sm_index_types Index.get_lorentz_index_types Index.is_su2 Index.classify_index Index.indices_by_type Index.cons_index Index.conj Index.conj_index_string assert_consistent_indices get_dynkin eps delta is_invariant_symbol Field.__call__ Field.fresh_indices IndexedField.indices_by_type IndexedField._dynkins IndexedField.gauge_indices Operator.indices_by_type Operator.dynkin Operator.dynkin_ints Operator.fill_free_indices Operator.structures Operator.by_structures Operator.by_epsilon_structures Operator.epsilons Operator.free_indices Field.dynkin_difference"],
     glob=[TC + ":ISOSPIN COLOUR GENERATION UNDOTTED DOTTED"], rule="indices")

prop("P23", "Duplicate removal keeps the first of each class and nothing else",
     "Removing equivalent items compares every later item with every kept earlier one, keeps the first of each class in the original order and drops exactly the items equivalent to a kept one. "
     "The in-place variant modifies the given list, the other variant leaves it alone and returns a new list with the same content.",
     "all lists and equivalence predicates",
     "off-by-one and index-shift errors show up only for duplicates in particular positions",
     [("duplicate removal helpers", "utils/functions.py, completions/completions.py")],
     fn=["utils.functions:remove_equivalent remove_equivalent_nopop dropped_vals chunks", CC + ":remove_isomorphic are_equivalent_partitions quick_remove_equivalent_partitions slow_remove_equivalent_completions",
         "completions.utils:chunks flatten foldr fixedpoint multiset_equality factors", "tensormethod.contract:clean_operators remove_relabellings"])

prop("P24", "Pattern matching binds consistently and failure is final",
     "A match assigns every pattern variable one value such that substituting it reproduces the data; a variable that occurs twice must match equal data. "
     "Once any part fails the whole match fails, and sequences of different length or structure never match.",
     "all patterns and data",
     "tests do not cover repeated variables, nesting and mismatched lengths together",
     [("pattern matcher", "utils/match.py")],
     fn=["utils.match:_extend_if_consistent _match_on_collection is_pattern_var pattern_match is_match pmatch"])

prop("P25", "Operators survive the plain form used for storage",
     "The plain form of an operator lists every field with all constructor data and every invariant tensor with its indices, and rebuilding from it gives an operator with equal fields and the same kinds of invariant tensors in the same positions. "
     "Two-index colour tensors are rebuilt as deltas and all others as epsilons.",
     "all operators, with every mixture of epsilons and deltas and with derivative fields",
     "tests do not round-trip operators with deltas or derivative fields",
     [("storage form of operators", "tensormethod/core.py")],
     fn=[TC + ":Operator.pickle_form Operator.from_pickle_form IndexedField._dict IndexedField.__new__ IndexedField.__init__ eps delta Operator.__new__ Operator.__init__ Operator.indexed_fields Operator.epsilons Operator.fields"],
     glob=["completions.operators:EFF_OPERATORS DERIV_EFF_OPERATORS"], over=("inputs", "histories"))

prop("P26", "Constructed invariants contract every requested index into a singlet",
     "Contracting fields to a target representation uses epsilons of the right kind, one on each pair of open indices, until exactly the target number is open, and rejects targets that cannot be reached. "
     "Singlet construction covers all ways of pairing indices, never pairs an index twice, contracts each colour index with one of opposite height or three of equal height with an epsilon, and raises when no singlet exists.",
     "all operators, index kinds and target representations",
     "tests count the invariants of some field contents; other index kinds, numbers and failure cases are not exercised",
     [("contraction into singlets", "tensormethod/contract.py")],
     fn=["tensormethod.contract:colour_singlets epsilon_combos su2_singlets_type lorentz_singlets contract_su2_helper contract_su2 term_lorentz_singlet construct_operators unsimplified_invariants extract_relabellings compare_singlets is_identity_mapping exists_identity_mapping clean_operators remove_relabellings invariants",
         TC + ":Field.walked decompose_product Field.is_singlet Operator.simplify Operator.safe_simplify Operator.safe_nocoeff Operator.duplicate_fields Operator.is_equivalent_to Operator.by_structures Operator.structures Operator.fill_free_indices Operator.dynkin Operator.dynkin_ints normalise_operator_input IndexedField.__mul__ Operator.__mul__",
         "tensormethod.utils:safe_nocoeff"])

prop("P27", "Completions are equivalent only under a relabelling of equal exotics",
     "Two completions are judged equivalent exactly when they have the same exotic quantum numbers, the same number of terms, and renaming the exotics of one to those of the other with equal quantum numbers makes the sets of terms coincide up to order, index names and coefficients. "
     "The exotic quantum numbers used are independent of whether a field or its conjugate was recorded.",
     "all pairs of completions",
     "tests compare a few pairs that are clearly equal or different; partial matches are not explored",
     [("comparison of completions", "completions/completions.py")],
     fn=[CC + ":sort_strings check_remapping_on_terms compare_terms are_equivalent_completions slow_remove_equivalent_completions are_equivalent_partitions graph_fingerprint",
         CCORE + ":Completion.exotic_info Completion.exotic_fields Completion.lagrangian Completion.info Completion.draw_diagram",
         "completions.utils:multiple_replace multiset_equality", TC + ":Operator.safe_simplify Operator.safe_nocoeff", "tensormethod.utils:safe_nocoeff"])

prop("P28", "Exotics are classified by reality and spin, and the constructors enforce it",
     "An exotic becomes a Majorana fermion or real scalar exactly when its Standard Model representation is self-conjugate with zero hypercharge, otherwise a vector-like Dirac fermion or complex scalar; anything that is neither scalar nor fermion is rejected. "
     "Every completion field constructor rejects a field of the wrong spin or reality and fixes the statistics of its kind.",
     "all representations and hypercharges",
     "tests build a few exotics; octets, higher representations and zero-hypercharge doublets are not reached",
     [("classification and constructors of exotics", "completions/core.py, tensormethod/core.py")],
     fn=[CCORE + ":cons_completion_field assert_real_rep ComplexScalar.__init__ RealScalar.__init__ MajoranaFermion.__init__ VectorLikeDiracFermion.__init__ FieldType.__new__",
         TC + ":Field.is_real_sm_irrep Field.is_scalar Field.is_boson Field.is_fermion Field.is_left_fermion Field.is_right_fermion Field.lorentz_irrep Field.sm_irrep Field.colour_irrep Field.isospin_irrep Field.dynkin_ints Field.y get_dynkin",
         CC + ":exotic_field_and_term all_scalars all_fermions drop_scalar"],
     cls=[CCORE + ":FieldType ComplexScalar RealScalar MajoranaFermion VectorLikeDiracFermion"], rule="reality")

prop("P29", "Mixing matrices follow the standard parametrisation in both forms",
     "Every entry of a mixing matrix is the standard product of three rotations with one phase, symbolic and numerical forms agree entry by entry, and columns and Hermitian conjugate are read off without transposition errors. "
     "Numerical inputs are angles in radians within their physical ranges, and the neutrino masses reproduce the stated squared-mass differences.",
     "all mixing angles and phases",
     "no test evaluates the matrices",
     [("mixing matrices and numerical inputs", "analysis/utils.py, analysis/flavour_anomalies.py")],
     fn=["analysis.utils:UnitaryMatrix.__init__ UnitaryMatrix.cols UnitaryMatrix.get_dagger", "analysis.flavour_anomalies:x Z run_point"],
     glob=["analysis.utils:pert_bound GF ALPHA_EM mb THETA12 THETA23 THETA13 DELTA_CP measured_mv_diffs NEUTRINO_MASSES PMNS THETA12_CKM THETA13_CKM THETA23_CKM DELTA_CP_CKM CKM VEV",
           "analysis.flavour_anomalies:MV2 MV3 U2 U3"],
     cls=["analysis.utils:UnitaryMatrix"], rule="mixing")

prop("P30", "The one-loop model tables couple consistently",
     "In every row of the one-loop neutrino-mass tables the listed fields have colour representations, isospin and hypercharges for which each vertex of the diagram is gauge invariant, for every isospin assignment and hypercharge offset generated. "
     "All tables, isospin assignments and hypercharge offsets in range are generated.",
     "all rows, isospin assignments and hypercharge values",
     "no test inspects the rows",
     [("one-loop model tables", "database/heavyloops.py, database/pickler")],
     fn=["database.heavyloops:tbl_2_1 tbl_2_2 tbl_2_3 tbl_3_1 generate_models", "database.pickler__script:one_loop_democratic_nums"],
     glob=["database.heavyloops:tbl_2_su2_reps_func tbl_3_su2_reps_func tbl_2_su2_reps tbl_3_su2_reps"], rule="loops")

prop("P31", "Packaged data files agree with the code that reads them",
     "Every packaged data file the library opens exists, has the layout its reader expects and refers only to names that exist; registries of exotics and terms assign one prime to a field and its conjugate and distinct primes otherwise, and every registered term is neutral and built of registered exotics and Standard Model fields. "
     "Paths are built relative to the package, so loading does not depend on the working directory.",
     "all packaged data files and all of their entries",
     "tests load a file but look at a few entries",
     [("packaged data", "completions/*.p, database/*.p, completions/topology_data")],
     glob=["completions.topologies:TOPOLOGY_PATH PARTITIONS DIAGRAMS GRAPHS"], over=("inputs", "configurations"), rule="data")

prop("P32", "LaTeX output names every field and contraction unambiguously",
     "The LaTeX of an operator prints every field with its conjugation mark and every index exactly as often as it occurs, contracted indices sharing one letter and different contractions using different letters of the kind's alphabet. "
     "Symbols are escaped or replaced consistently, and every row of the operator tables pairs a label with the operator stored under it, the printed formula having that operator's fields and contractions.",
     "all operators and index contents",
     "tests do not compare LaTeX of operators with several contractions of each kind",
     [("LaTeX output", "tensormethod/core.py, tensormethod/utils.py, database/operators.py")],
     fn=[TC + ":IndexedField.latex_and_pop Operator.latex Operator._repr_html_ Field.get_latex IndexedField.__repr__ IndexedField.__str__ Field.pprint", "tensormethod.utils:to_tex repr_tree strip_parens",
         "database.operators:print_paper_table format_primes", "completions.tikzfeynman:tikz_type proc_body tikz_export tikz_export_generic export_completion skeleton"],
     glob=["tensormethod.utils:TEX_GREEK_LOWERCASE DOTTED_TEX_GREEK_LOWERCASE"])
