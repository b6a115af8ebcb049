from neutrinomass.tensormethod.core import Index, Field, IndexedField, eps, delta, is_invariant_symbol, Operator, get_dynkin, D
from neutrinomass.tensormethod.contract import lorentz_singlets, colour_singlets, invariants, contract_su2
from neutrinomass.utils import timeit
from neutrinomass.tensormethod.utils import safe_nocoeff
from neutrinomass.completions.utils import flatten, chunks, factors, multiple_replace, allowed_lor_dyn
from neutrinomass.utils.functions import remove_equivalent, remove_equivalent_nopop
from neutrinomass.completions.core import Completion, Model, FailedCompletion, EffectiveOperator, cons_completion_field, FieldType, VectorLikeDiracFermion, MajoranaFermion, ComplexScalar, RealScalar
from neutrinomass.completions.topologies import get_topology_data, Leaf
from neutrinomass.utils import pmatch
from neutrinomass.utils.functions import stringify_qns, conjugate_term
from typing import Tuple, List, Dict, Union
import networkx as nx
import networkx.algorithms.isomorphism as iso
from copy import copy, deepcopy
from alive_progress import alive_bar
from collections import Counter, defaultdict
from itertools import permutations, groupby, combinations
from sympy.tensor.tensor import Tensor
from sympy import prime
from functools import lru_cache, reduce
import re
import os

def replace(data, to_replace, replace_with, found=False) -> Tuple[tuple, bool]:
    if found:
        return (data, found)
    if isinstance(data, tuple):
        new_data = []
        for datai in data:
            new_datai, found = replace(datai, to_replace, replace_with, found)
            new_data.append(new_datai)
        f = lambda x: Leaf(*x) if isinstance(data, Leaf) else tuple(x)
        return (f(new_data), found)
    if data == to_replace:
        return (replace_with, True)
    return (data, found)

def replace_fields(fields: List[IndexedField], partition):
    for field in fields:
        char = 'S' if field.is_boson else 'F'
        partition, _ = replace(data=partition, to_replace=char, replace_with=field)
    return partition

def quick_remove_equivalent_partitions(partitions):
    return list(set(partitions))

def distribute_fields(fields, partition):
    perms = permutations(fields)
    parts = [replace_fields(fields, partition) for fields in perms]
    return quick_remove_equivalent_partitions(parts)

def node_dictionary(partition: tuple, field_dict: Dict[IndexedField, int]) -> Dict[int, str]:
    flat_data = list(flatten(partition))
    tuples = chunks(flat_data, 2)
    reversed_data = list(map(reversed, tuples))
    return {k: {'particle': v.label + str(field_dict[v])} for k, v in reversed_data}

def set_external_fields(partition: tuple, graph: nx.Graph, field_dict: Dict[IndexedField, int]) -> nx.Graph:
    g = deepcopy(graph)
    node_attrs = node_dictionary(partition, field_dict)
    edge_attrs = {}
    for edge in graph.edges:
        for n, field_dict in node_attrs.items():
            if n in edge:
                edge_attrs[edge] = field_dict
    nx.set_edge_attributes(g, edge_attrs)
    return g

def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
    counts = defaultdict(list)
    idxs = []
    for f in op.tensors:
        if isinstance(f, IndexedField):
            counts[f.label].append(f)
        else:
            idxs.append(f.indices)
    labelled_counts = {k: [[f, i] for i, f in enumerate(v)] for k, v in counts.items()}
    for k, v in labelled_counts.items():
        for (f1, i1), (f2, i2) in combinations(v, 2):
            if not f1.indices_by_type['Isospin']:
                f2_idx = labelled_counts[k].index([f2, i2])
                labelled_counts[k][f2_idx] = [f2, i1]
                continue
            iso1 = f1.indices_by_type['Isospin'][0]
            iso2 = f2.indices_by_type['Isospin'][0]
            if [-iso1, -iso2] in idxs or [-iso2, -iso1] in idxs:
                f2_idx = labelled_counts[k].index([f2, i2])
                labelled_counts[k][f2_idx] = [f2, i1]
            else:
                continue
    flat = reduce(lambda x, y: x + y, labelled_counts.values())
    return dict(flat)

def partitions(operator: EffectiveOperator, verbose=False) -> List[dict]:
    topology_data_list = get_topology_data(**operator.topology_type)
    colour_ops = colour_singlets([operator.operator], overcomplete=True)
    colour_ops = [EffectiveOperator(operator.name, op) for op in colour_ops]
    if verbose:
        print(f'Finding partitions of {operator.name}. ' + f'There are {len(colour_ops)} colour structures and ' + f'{len(topology_data_list)} relevant topologies.')
    out = []
    counter = 1
    for topology_data in topology_data_list:
        if verbose:
            print(f'Furnishing topology {counter}...')
            counter += 1
        fields_and_counters = indexed_fields_with_counters(operator.operator)
        fields = [f for f, i in fields_and_counters.items()]
        perms = distribute_fields(fields, topology_data['partition'])
        for op in colour_ops:
            epsilons = op.operator.epsilons
            for perm in perms:
                g = topology_data['graph']
                g = set_external_fields(perm, g, fields_and_counters)
                partition_file = topology_data['partition_file']
                topology_classification = os.path.splitext(os.path.basename(partition_file))[0]
                data = {'operator': op, 'partition': perm, 'epsilons': epsilons, 'graph': g, 'topology': topology_classification}
                out.append(data)
    return out

def are_equivalent_partitions(a, b):
    ga = a['graph']
    gb = b['graph']
    if not iso.faster_could_be_isomorphic(ga, gb):
        return False
    em = iso.categorical_edge_match('particle', 'exotic')
    return nx.is_isomorphic(ga, gb, edge_match=em)

def graph_fingerprint(part):
    g = part['graph']
    degree = dict(g.degree())
    return sorted(degree.values())

def remove_isomorphic(partitions: List[dict]) -> List[dict]:
    return remove_equivalent_nopop(partitions, are_equivalent_partitions)

def all_scalars(fields: List[Field]) -> bool:
    boolean = True
    for f in fields:
        boolean = boolean and f.is_boson
    return boolean

def all_fermions(fields: List[Field]) -> bool:
    boolean = True
    for f in fields:
        boolean = boolean and f.is_fermion
    return boolean

def drop_scalar(fields: List[Field]) -> List[Field]:
    scalars, fermions = ([], [])
    for f in fields:
        if f.is_boson:
            scalars.append(f)
        elif f.is_fermion:
            fermions.append(f)
    assert len(scalars) == 1
    return fermions

def get_lorentz_epsilons(fields: Tuple[IndexedField]) -> Tuple[bool, List[Tensor]]:
    deriv_structure = [f.derivs for f in fields]
    n_derivs = sum(deriv_structure)
    if n_derivs > 2:
        raise Exception(f'Not currently supporting {n_derivs} derivatives in an operator.')
    if not n_derivs and len(fields) == 4:
        return (True, [])
    if not n_derivs and len(fields) == 3:
        if all_scalars(fields):
            return (True, [])
        elif all_fermions(fields):
            return (False, [])
        return get_lorentz_epsilons(drop_scalar(fields))
    if n_derivs == 2 and len(fields) == 3:
        fields = sorted(fields, key=lambda f: -f.derivs)
    prod = reduce(lambda x, y: x * y, fields)
    undotted, dotted, _, _, _ = prod.indices_by_type.values()
    if len(undotted) == 1 and len(dotted) == 1:
        return (False, [])
    epsilons = []
    for indices in [undotted, dotted]:
        if len(indices) == 1:
            continue
        if len(indices) % 2 != 0:
            indices = indices[:-1]
        for i, j in chunks(indices, 2):
            epsilons.append(eps(f'-{i} -{j}'))
    return (True, epsilons)

def is_contracted_epsilon(eps: Tensor, indices: List[Index]) -> bool:
    i, j, *k = eps.indices
    if not k:
        if -i in indices and -j in indices:
            return True
        return False
    to_remove, free = ([], [])
    for idx in eps.indices:
        if -idx in indices:
            to_remove.append(-idx)
        else:
            free.append(idx)
    if len(to_remove) == 2:
        assert len(free) == 1
        indices.append(free[0])
        return True
    if len(to_remove) == 3:
        return True
    return False

def separate_gauge_epsilons(fields: List[IndexedField], epsilons: List[Tensor]) -> Tuple[List[Tensor], List[Tensor]]:
    prod_fields = reduce(lambda x, y: x * y, fields)
    free_indices = prod_fields.get_free_indices()
    contracted_epsilons, spectator_epsilons = ([], [])
    for epsilon in epsilons:
        if is_contracted_epsilon(epsilon, free_indices):
            contracted_epsilons.append(epsilon)
        else:
            spectator_epsilons.append(epsilon)
    return (spectator_epsilons, contracted_epsilons)

def check_charges(operator: Operator, ignore=[]) -> None:
    fields = [f for f in operator.tensors if isinstance(f, IndexedField)]
    for q in fields[0].charges:
        if q in ignore:
            continue
        assert not sum((f.charges[q] for f in fields))

def check_singlet(operator: Operator, ignore=['3b']) -> None:
    check_charges(operator, ignore=ignore)
    for free in operator.free_indices:
        assert free.index_type == 'Generation'

def exotic_field_and_term(op: Operator, symbols: Dict[str, List[str]], field_dict: Dict[tuple, str]) -> Tuple[IndexedField, IndexedField, Union[Operator, str]]:
    fields = [f for f in op.tensors if isinstance(f, IndexedField)]
    exotic_charges = {}
    pairs = list(map(lambda x: x.charges.items(), fields))
    fst, *rst = pairs
    for pair in rst:
        assert len(pair) == len(fst)
    for k, _ in fst:
        exotic_charges[k] = sum((f.charges[k] for f in fields))
    indices_by_type = op.indices_by_type.values()
    exotic_undotted, exotic_dotted, exotic_colour, exotic_isospin, _ = map(sorted, indices_by_type)
    exotic_indices = ' '.join((str(i) for i in [*exotic_undotted, *exotic_dotted, *exotic_colour, *exotic_isospin]))
    lorentz_dynkin = get_dynkin(exotic_indices)[:2]
    if lorentz_dynkin in ('10', '01'):
        symbols_to_use = symbols['fermion']
    else:
        symbols_to_use = symbols['boson']
    fs = sorted([f.field for f in fields], key=lambda x: x.label_with_dagger)
    fs = tuple(fs)
    if fs in field_dict.keys():
        symbol = field_dict[fs]
    else:
        symbol = symbols_to_use.pop(0)
        field_dict[fs] = symbol
    to_conj = False
    if exotic_indices and exotic_indices[0] == 'd':
        exotic_indices = Index.conj_index_string(exotic_indices)
        to_conj = True
    exotic_indexed_field = IndexedField(label=symbol, indices=exotic_indices, charges=exotic_charges)
    exotic_field = cons_completion_field(exotic_indexed_field)
    exotic_field = exotic_field.conj_indices if to_conj else exotic_field
    partner = exotic_field
    if isinstance(exotic_field, ComplexScalar):
        partner = exotic_field.conj
    elif isinstance(exotic_field, RealScalar):
        partner = exotic_field.swap_colour_indices()
    elif isinstance(exotic_field, VectorLikeDiracFermion):
        partner = exotic_field.dirac_partner()
    elif isinstance(exotic_field, MajoranaFermion):
        partner = exotic_field.majorana_partner()
    partner, fix_su2_epsilons = partner.lower_su2()
    term = reduce(lambda x, y: x * y, fix_su2_epsilons, op * partner)
    set_fields = set([f.label for f in term.fields])
    if len(set_fields) < len(term.fields) and term.safe_simplify() == 0:
        return (exotic_field, partner, f'Vanishing coupling at {term}')
    term = reduce(lambda x, y: x * y, fix_su2_epsilons, op * partner)
    check_singlet(term)
    return (exotic_field, partner, term)

def process_derivative_term(op: Operator) -> Union[Operator, str]:
    deriv_structure = [f.derivs for f in op.fields]
    n_derivs = sum(deriv_structure)
    if n_derivs == 0:
        return op
    scalars, fermions, exotic_fermions, epsilons = ([], [], [], [])
    for t in op.tensors:
        if isinstance(t, IndexedField) and t.derivs > 0 and t.is_boson:
            no_deriv_field = t.strip_derivs_with_indices()
            scalars.append(no_deriv_field)
        if isinstance(t, IndexedField) and t.derivs > 0 and t.is_fermion:
            no_deriv_field = t.strip_derivs_with_indices()
            fermions.append(no_deriv_field)
        elif isinstance(t, VectorLikeDiracFermion):
            fixed_field = t.dirac_partner().conj
            exotic_fermions.append(fixed_field)
        elif isinstance(t, MajoranaFermion):
            fixed_field = t.conj
            exotic_fermions.append(fixed_field)
        elif isinstance(t, IndexedField) and t.is_fermion:
            fermions.append(t)
        elif isinstance(t, IndexedField) and t.is_scalar:
            scalars.append(t)
        elif not isinstance(t, IndexedField):
            if t.indices[0].index_type in ('Undotted', 'Dotted'):
                continue
            else:
                epsilons.append(t)
    if len(scalars) > 2:
        term = reduce(lambda x, y: x * y, scalars + epsilons)
        if term.safe_simplify() == 0:
            return 'Vanishing structure'
        return term
    if len(fermions) == 2 and n_derivs == 1:
        return 'Not allowed contraction'
    if len(fermions) == 2 and n_derivs == 2:
        left, right = fermions
    if len(exotic_fermions) == 1:
        assert len(fermions) == 1
        left, right = (exotic_fermions[0], fermions[0])
    if len(exotic_fermions) == 2:
        left, right = exotic_fermions
    right = reduce(lambda x, y: x * y, scalars + epsilons, right)
    lu, ld, _, _, _ = left.indices_by_type.values()
    ru, rd, _, _, _ = right.indices_by_type.values()
    if lu == ru and ld == rd:
        partner, fix_su2_epsilons = left.lower_su2(skip=['Isospin'])
        assert len(fix_su2_epsilons) == 1
        return right * partner * fix_su2_epsilons[0]
    if lu:
        if not (len(lu) == 1 and len(ru) == 1):
            return 'Not allowed contraction'
        index_str = ' '.join((str(-i) for i in lu + ru))
    else:
        if not (len(ld) == 1 and len(rd) == 1):
            return 'Not allowed contraction'
        index_str = ' '.join((str(-i) for i in ld + rd))
    return right * left * eps(index_str)

def contract(fields: Tuple[IndexedField], symbols: Dict[str, List[str]], gauge_epsilons: list, field_dict: Dict[tuple, str]) -> Union[Tuple[FieldType, Operator, List[Tensor], List[Tensor]], str]:
    if len(fields) != 2 and len(fields) != 3:
        raise Exception('Too many fields passed to contract.')
    allowed_contraction, lorentz_epsilons = get_lorentz_epsilons(fields)
    if not allowed_contraction:
        return 'Bad Lorentz contraction.'
    spectator_gauge_eps, eps_to_remove = separate_gauge_epsilons(fields, gauge_epsilons)
    contracted_fields = reduce(lambda x, y: x * y, (*fields, *lorentz_epsilons, *eps_to_remove))
    exotic, partner, maybe_term = exotic_field_and_term(contracted_fields, symbols, field_dict)
    if isinstance(maybe_term, str):
        return maybe_term
    check_singlet(maybe_term)
    deriv_structure = [f.derivs for f in maybe_term.fields]
    n_derivs = sum(deriv_structure)
    if n_derivs == 0:
        no_deriv_maybe_term = maybe_term
        if isinstance(no_deriv_maybe_term, str):
            return no_deriv_maybe_term
    else:
        no_deriv_maybe_term = process_derivative_term(maybe_term)
        if isinstance(no_deriv_maybe_term, str):
            return no_deriv_maybe_term
        if no_deriv_maybe_term.safe_simplify() == 0:
            return f'Vanishing coupling at {maybe_term} after derivative processing.'
    check_singlet(no_deriv_maybe_term)
    return (exotic, no_deriv_maybe_term, spectator_gauge_eps, lorentz_epsilons)

def get_connecting_edge(graph: nx.Graph, nodes: List[int]) -> Tuple[int, int]:
    neighbours = {}
    for node in nodes:
        neighbours[node] = set(graph.neighbors(node))
    fst, *rst = list(neighbours.values())
    intersection = fst.intersection(*rst)
    assert len(intersection) == 1
    connecting_node = list(intersection)[0]
    other_nodes = list(graph.neighbors(connecting_node))
    for node in nodes:
        other_nodes.remove(node)
    assert len(other_nodes) == 1
    return (connecting_node, other_nodes[0])

def replace_and_mutate(leaves: Tuple[Tuple[IndexedField, int]], symbols: List[str], gauge_epsilons: list, lorentz_epsilons: list, terms: list, edge_dict: Dict[FieldType, Tuple[int, int]], field_dict: Dict[tuple, str], graph: nx.Graph) -> Leaf:
    fields, nodes = ([], [])
    for leaf in leaves:
        if leaf[1] == None:
            return leaf
        field, node = leaf
        fields.append(field)
        nodes.append(node)
    if len(fields) == 1:
        return Leaf(field, node)
    maybe_contract = contract(fields, symbols, gauge_epsilons, field_dict)
    if isinstance(maybe_contract, str):
        return Leaf(maybe_contract, None)
    exotic_field, term, gauge_epsilons, new_lorentz_epsilons = maybe_contract
    lorentz_epsilons += new_lorentz_epsilons
    check_singlet(term)
    terms.append(term)
    exotic_edge = get_connecting_edge(graph, nodes)
    edge_dict[exotic_field] = exotic_edge
    return Leaf(exotic_field, exotic_edge[0])

def contains_only_leaves(xs: tuple) -> bool:
    if not isinstance(xs, tuple):
        return False
    for x in xs:
        if not isinstance(x, Leaf):
            return False
    return True

def reduced_row(row, func):
    if isinstance(row, Leaf):
        return row
    if contains_only_leaves(row):
        return func(row)
    return func(tuple(map(lambda a: reduced_row(a, func), row)))

def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
    lorentz_epsilons, terms, edge_dict, field_dict = ([], [], {}, {})
    more_fermion_symbols = ['f' + str(i) for i in range(10)]
    more_scalar_symbols = ['S' + str(i) for i in range(10)]
    symbols = {'fermion': ['ψ', 'χ', 'f', 'ζ', 'θ'] + more_fermion_symbols, 'boson': ['φ', 'η', 's', 'ω', 'σ'] + more_scalar_symbols}
    func = lambda leaves: replace_and_mutate(leaves=leaves, symbols=symbols, gauge_epsilons=gauge_epsilons, lorentz_epsilons=lorentz_epsilons, terms=terms, edge_dict=edge_dict, field_dict=field_dict, graph=graph)
    reduced_partition = [reduced_row(row, func) for row in partition]
    prod = None
    for i in reduced_partition:
        f = i.field
        if isinstance(f, str):
            return f
        if prod is None:
            prod = f
        else:
            prod *= f
    fields = [f for f in prod.tensors if isinstance(f, IndexedField)]
    allowed, new_lorentz_epsilons = get_lorentz_epsilons(fields)
    if not allowed:
        return 'Bad Lorentz contraction.'
    _, eps_to_remove = separate_gauge_epsilons(fields, gauge_epsilons)
    for e in [*new_lorentz_epsilons, *eps_to_remove]:
        prod *= e
    lorentz_epsilons += new_lorentz_epsilons
    deriv_structure = [f.derivs for f in prod.fields]
    n_derivs = sum(deriv_structure)
    if n_derivs == 0:
        proc_term = prod
        if isinstance(proc_term, str):
            return proc_term
    else:
        proc_term = process_derivative_term(prod)
        if isinstance(proc_term, str):
            return proc_term
        if proc_term.safe_simplify() == 0:
            return f'Vanishing coupling at {prod} after derivative processing.'
    check_singlet(proc_term)
    terms.append(proc_term)
    return (terms, edge_dict, field_dict, lorentz_epsilons)

def partition_completion(partition) -> Union[Completion, FailedCompletion]:
    part = partition['partition']
    gauge_epsilons = partition['epsilons']
    graph = partition['graph']
    op = partition['operator']
    topo = partition['topology']
    args = construct_completion(part, gauge_epsilons, graph)
    if not isinstance(args, str):
        terms, edge_dict, field_dict, lorentz_epsilons = args
    else:
        return FailedCompletion(args)
    explicit_op = reduce(lambda a, b: a * b, lorentz_epsilons, op.operator)
    exotics = set((f for f in edge_dict.keys()))
    eff_operator = EffectiveOperator(op.name, explicit_op)
    new_edge_attrs = {v: {'particle': k.label} for k, v in edge_dict.items()}
    nx.set_edge_attributes(graph, new_edge_attrs)
    return Completion(operator=eff_operator, partition=part, graph=graph, exotics=exotics, terms=terms, topology=topo)

def operator_completions(operator: EffectiveOperator, verbose=False) -> List[Completion]:
    parts = partitions(operator, verbose=verbose)
    if verbose:
        print(f'Starting with {len(parts)} partitions, removing isomorphic ones...')
    if verbose:
        print(f'Finding completions of {len(parts)} partitions...')
        with alive_bar(len(parts)) as bar:
            for p in parts:
                comp = partition_completion(p)
                if not isinstance(comp, FailedCompletion):
                    yield comp
                bar()
    else:
        for p in parts:
            comp = partition_completion(p)
            if not isinstance(comp, FailedCompletion):
                yield comp

def sort_strings(terms: List[List[str]]):
    data = [[''.join(sorted(item)) for item in interaction] for interaction in terms]
    return set(map(lambda x: tuple(sorted(x)), data))

def check_remapping_on_terms(terms1, terms2, remapping):
    new_terms = set()
    for term in terms1:
        for k, v in remapping.items():
            simple = term.safe_simplify()
            s = str(safe_nocoeff(simple))
            s = multiple_replace(remapping, s)
            s = re.sub('g[0-9]+_', 'g_', s)
            s = re.sub('-', '', s)
            ss = tuple(sorted(s.split('*')))
            new_terms.add(ss)
    new_terms = sort_strings(new_terms)
    comp2_strs = []
    for term in terms2:
        simple = term.safe_simplify()
        s = str(safe_nocoeff(simple))
        comp2_strs.append(s)
    comp2_strs = [re.sub('g[0-9]+_', 'g_', s) for s in comp2_strs]
    comp2_strs = [re.sub('-', '', s) for s in comp2_strs]
    comp2_tups = [tuple(sorted(s.split('*'))) for s in comp2_strs]
    comp2_tups = sort_strings(comp2_tups)
    if new_terms == comp2_tups:
        return remapping
    return {}

def compare_terms(comp1: Completion, comp2: Completion) -> Dict[str, str]:
    if set(comp1.exotic_info().values()) != set(comp2.exotic_info().values()):
        return {}
    if len(comp1.terms) != len(comp2.terms):
        return {}
    rev_map2 = {qnumbers: field.label for field, qnumbers in comp2.exotic_info().items()}
    remapping = {field.label: rev_map2[qnumbers] for field, qnumbers in comp1.exotic_info().items()}
    return check_remapping_on_terms(comp1.terms, comp2.terms, remapping)

def are_equivalent_completions(comp1: Completion, comp2: Completion) -> bool:
    return bool(compare_terms(comp1, comp2))

def slow_remove_equivalent_completions(comps: List[Completion], verbose: bool=False) -> List[Completion]:
    remove_equivalent(comps, are_equivalent_completions)

def collect_completions(completions: List[Completion], key=None) -> Dict[tuple, Completion]:
    out = {}
    if key is None:
        key = lambda x: x.exotic_info()
    func = lambda c: tuple(sorted(key(c).values()))
    for k, g in groupby(completions, key=func):
        g_list = list(g)
        k = tuple(sorted(set(k)))
        out.setdefault(k, []).extend(g_list)
    return out

def prime_registry(sieve: Dict[tuple, List[Completion]]) -> Dict[tuple, int]:
    reg = {}
    counter = 1
    for k, v in sieve.items():
        for field in k:
            if field not in reg:
                reg[field] = prime(counter)
                counter += 1
    return reg

def model_registry(completions, registry) -> Dict[tuple, int]:
    reg = {}
    for k in completions:
        prod = 1
        for field in k:
            prod *= registry[field]
        reg[k] = prod
    return reg

def filter_completions(completions: Dict[tuple, List[Completion]], sieve: Dict[tuple, List[Completion]]) -> Dict[tuple, List[Completion]]:
    registry = prime_registry({**sieve, **completions})
    completions_model_registry = model_registry(completions, registry)
    sieve_model_registry = model_registry(sieve, registry)
    unique = {}
    for k, v in completions_model_registry.items():
        factors_ = factors(v)
        for ref_val in sieve_model_registry.values():
            if ref_val in factors_:
                break
        else:
            unique[k] = completions[k]
    return unique

def operator_strip_derivs(op: Operator) -> List[Operator]:
    tensors = op.tensors
    new_fields = []
    epsilons = []
    n_derivs = 0
    for field in tensors:
        if isinstance(field, Field):
            if field.derivs:
                assert field.derivs == 1
                n_derivs += 1
                data = field.stripped
                new_field = Field(**data, is_conj=field.is_conj, comm=field.comm, nf=field.nf)
                indices = field.gauge_indices
                new_fields.append((new_field, ' '.join((str(i) for i in indices))))
            else:
                indices = field.gauge_indices
                new_fields.append((field.field, ' '.join((str(i) for i in indices))))
        else:
            epsilons.append(field)
    return {'fields': new_fields, 'epsilons': epsilons, 'n_derivs': n_derivs}

def construct_operator(fields: List[Tuple[Field, str]], epsilons: List[Tensor]) -> Operator:
    tensors = []
    for field, index_string in fields:
        u, d, _, _, _ = field.fresh_indices().indices_by_type.values()
        lor_idx_str = ' '.join((str(i) for i in u + d))
        tensors.append(field(lor_idx_str + ' ' + index_string))
    return reduce(lambda x, y: x * y, tensors + epsilons)

def derivative_combinations(op: Union[Operator, EffectiveOperator]) -> Union[List[Operator], List[EffectiveOperator]]:
    eff_op = None
    if isinstance(op, EffectiveOperator):
        eff_op = op
        op = op.operator
    fields, epsilons, n_derivs = operator_strip_derivs(op).values()
    deriv_id_func = lambda x: x
    act_deriv = lambda f: D(f, allowed_lor_dyn(f))
    deriv_tuple = [act_deriv for _ in range(n_derivs)] + [deriv_id_func for _ in range(len(fields) - n_derivs)]
    structs, out = ([], [])
    for perm in permutations(deriv_tuple):
        new_structure = []
        for field, func in zip(fields, perm):
            new_structure.append((func(field[0]), field[1]))
        structs.append(new_structure)
    remove_equivalent(structs, eq_func=lambda x, y: x == y)
    for struct in structs:
        new_op = construct_operator(struct, epsilons)
        if new_op.safe_simplify():
            out.append(new_op)
    return [EffectiveOperator(eff_op.name, i) for i in out] if eff_op else out

def deriv_operator_completions(operator: EffectiveOperator, verbose=False) -> List[Completion]:
    deriv_combos = derivative_combinations(operator)
    if verbose:
        print(f'Finding completions of {len(deriv_combos)} IBP-related operators...')
    comps = []
    for combo in deriv_combos:
        if combo.operator.simplify() == 0:
            continue
        comps += list(operator_completions(combo, verbose=verbose))
    return comps

def completions(operator: EffectiveOperator, *args, **kwargs):
    if 'D' in operator.name:
        return deriv_operator_completions(operator, *args, **kwargs)
    return operator_completions(operator, *args, **kwargs)

def collect_models(comps):
    collected = collect_completions(comps)
    return [Model(cs) for _, cs in list(collected.items())]

def cons_term_prime_dict(completions: List[Completion]) -> Dict[tuple, int]:
    term_dict = {}
    counter = 1
    for comp in completions:
        n_terms = len(comp.terms)
        for term in comp.terms:
            new_term = tuple(sorted((stringify_qns(f) for f in term.fields)))
            if new_term not in term_dict:
                term_dict[conjugate_term(new_term)] = prime(counter)
                term_dict[new_term] = prime(counter)
                counter += 1
    return term_dict

def completion_characteristic_number(comp: Completion, prime_dict: Dict[tuple, int]) -> int:
    prod = 1
    for term in comp.terms:
        new_term = tuple(sorted((stringify_qns(f) for f in term.fields)))
        prod *= prime_dict[new_term]
    return prod

def clean_completions(completions: List[Completion]) -> List[Completion]:
    completions = list(completions)
    prime_dict = cons_term_prime_dict(completions)
    comp_dict = {}
    for comp in completions:
        num = completion_characteristic_number(comp, prime_dict)
        comp_dict[num, comp.topology] = comp
    return sorted((v for k, v in comp_dict.items()), key=lambda x: x.topology)
