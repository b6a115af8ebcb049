import itertools
from functools import reduce
from itertools import permutations
from itertools import product
from typing import List
from typing import Tuple
from typing import Union
from neutrinomass.utils import chunks
from neutrinomass.tensormethod.core import Field
from neutrinomass.tensormethod.core import Index
from neutrinomass.tensormethod.core import IndexedField
from neutrinomass.tensormethod.core import Operator
from neutrinomass.tensormethod.core import Prod
from neutrinomass.tensormethod.core import decompose_product
from neutrinomass.tensormethod.core import delta
from neutrinomass.tensormethod.core import eps
Contractable = Union[Field, IndexedField, Operator]
Indexed = Union[IndexedField, Operator]

def colour_singlets(operators: List[Operator], overcomplete=False):
    result = []
    for op in operators:
        colour_indices = []
        for i in op.free_indices:
            if i.index_type == Index.get_index_types()['c']:
                colour_indices.append(i)
        ups, downs = ([], [])
        for i in colour_indices:
            if i.is_up:
                ups.append(i)
            else:
                downs.append(i)
        if len(ups) == 3 and (not downs):
            result.append(op * eps(' '.join((str(-i) for i in ups))))
        elif len(downs) == 3 and (not ups):
            result.append(op * eps(' '.join((str(-i) for i in downs))))
        elif len(downs) == 3 and len(ups) == 3:
            result.append(op * eps(' '.join((str(-i) for i in ups))) * eps(' '.join((str(-i) for i in downs))))
        elif len(ups) != len(downs):
            raise ValueError('Cannot contract colour indices into a singlet.')
        delta_index_combos = [tuple(zip(perm, downs)) for perm in permutations(ups)]
        for combo in delta_index_combos:
            deltas = [delta(' '.join([(-j).label, (-i).label])) for i, j in combo]
            prod = op
            for d in deltas:
                prod *= d
            result.append(prod)
        if len(deltas) == 2 and overcomplete:
            a, b = deltas
            upa, downa = a.indices
            upb, downb = b.indices
            dummy = Index.fresh('c')
            up_index_str = ' '.join((str(i) for i in (upa, upb, dummy)))
            down_index_str = ' '.join((str(i) for i in (downa, downb, -dummy)))
            up_epsilon = eps(up_index_str)
            down_epsilon = eps(down_index_str)
            result.append(op * up_epsilon * down_epsilon)
    return result

def epsilon_combos(indices):
    mapper = lambda x: frozenset(map(frozenset, chunks(x, 2)))
    sets = set(map(mapper, permutations(indices)))
    return sets

def su2_singlets_type(op: Operator, index_type: str) -> List[Operator]:
    result = []
    indices = []
    for i in op.free_indices:
        if i.index_type == Index.get_index_types()[index_type]:
            indices.append(i)
    if len(indices) % 2:
        raise ValueError('Cannot contract odd number of indices into a singlet.')
    for combo in epsilon_combos(indices):
        epsilons = [eps(' '.join([(-i).label, (-j).label])) for i, j in combo]
        prod = op
        for e in epsilons:
            prod *= e
        result.append(prod)
    return result

def lorentz_singlets(op: Operator):
    u_singlets = su2_singlets_type(op, index_type='u')
    return [ds for us in u_singlets for ds in su2_singlets_type(us, index_type='d')]

def contract_su2_helper(left: Indexed, right: Indexed, out: Union[int, str], index_type: str):
    index_dict = {}
    for pos, (_, label) in enumerate(Index.get_dynkin_labels()):
        index_dict[label] = pos
    if isinstance(out, int):
        n_target_indices = out
    else:
        n_target_indices = int(out[index_dict[index_type]])
    n_input_indices = left.dynkin_ints[index_dict[index_type]] + right.dynkin_ints[index_dict[index_type]]
    assert n_target_indices <= n_input_indices
    assert (n_target_indices - n_input_indices) % 2 == 0
    if n_target_indices == n_input_indices:
        return [1]
    left_indices = left.indices_by_type[Index.get_index_types()[index_type]]
    right_indices = right.indices_by_type[Index.get_index_types()[index_type]]
    shortest, longest = sorted([left_indices, right_indices], key=len)
    eps_index_combos = [tuple(zip(perm, shortest)) for perm in permutations(longest)]
    results = []
    for combo in eps_index_combos:
        prod = 1
        counter = n_input_indices
        for i, j in combo:
            prod *= eps(' '.join([(-i).label, (-j).label]))
            counter -= 2
            if counter == n_target_indices:
                results.append(prod)
    return results

def contract_su2(left: Contractable, right: Contractable, out: str, ignore=[]):
    if not isinstance(left, (IndexedField, Operator)):
        left = left.fresh_indices()
    if not isinstance(right, (IndexedField, Operator)):
        right = right.fresh_indices()
    epsilons = []
    for i in ['u', 'd', 'i']:
        if i in ignore:
            epsilons.append([1])
            continue
        junk = contract_su2_helper(left, right, out, i)
        epsilons.append(junk)
    return [left * right * u * d * i for u, d, i in itertools.product(*epsilons)]

def term_lorentz_singlet(term: Operator) -> List[Operator]:
    fst, *rst = term.tensors
    prod = reduce(lambda x, y: x * y, rst)
    return contract_su2(left=fst, right=prod, out=0, ignore=['i'])

def construct_operators(expr_tree: Prod, _stack=None, ignore=[]) -> List[Operator]:
    if _stack is None:
        _stack = []
    while isinstance(expr_tree, Prod):
        irrep, left, right = expr_tree
        _stack.append(irrep)
        _stack.append(right)
        expr_tree = left
    results = [expr_tree]
    while _stack:
        field = _stack.pop()
        irrep = _stack.pop()
        updated_results = []
        for result in results:
            updated_results += contract_su2(left=result, right=field, out=irrep.dynkin, ignore=ignore)
        results = updated_results
    return results

def unsimplified_invariants(*fields, ignore=[]) -> List[Operator]:
    prod = decompose_product(*fields)
    singlets = [i for i in prod if i.is_singlet]
    if not singlets:
        return []
    result = []
    for s in singlets:
        operators = construct_operators(s.walked(), ignore=ignore)
        if 'c' not in ignore:
            operators = colour_singlets(operators)
        result += operators
    return result

def extract_relabellings(x, y) -> List[List[Tuple[Index, Index]]]:
    perms = permutations((sorted(pair.indices) for pair in x))
    y_indices = [sorted(pair.indices) for pair in y]
    mappings = []
    for perm in perms:
        mapping = []
        for (i, j), (k, l) in zip(perm, y_indices):
            if i != k:
                mapping.append((i, k))
            if j != l:
                mapping.append((j, l))
        mappings.append(mapping)
    return mappings

def compare_singlets(left: Operator, right: Operator):
    if left.nocoeff == right.nocoeff:
        return (True, [])
    left_structures = left.by_structures()
    right_structures = right.by_structures()
    assert len(left_structures) == len(right_structures)
    relabellings_by_structures = [None] * len(left_structures)
    for i, (ls, rs) in enumerate(zip(left_structures, right_structures)):
        relabellings = extract_relabellings(ls, rs)
        relabellings_by_structures[i] = relabellings
    return [reduce(lambda x, y: x + y, structures) for structures in product(*relabellings_by_structures)]

def is_identity_mapping(mapping, op):
    for i, j in mapping:
        if isinstance(i, Index) and isinstance(j, Index):
            continue
        for k, v in op.duplicate_fields.items():
            if -i in v and -j in v:
                break
        else:
            return False
    return True

def exists_identity_mapping(mappings, op):
    for mapping in mappings:
        if is_identity_mapping(mapping, op):
            return True
    return False

def clean_operators(operators):
    seen, out = (set(), [])
    for op in operators:
        op_tens_mul = op.simplify(fill=True)
        if not op_tens_mul:
            continue
        if not op_tens_mul in seen:
            out.append(op)
            seen.add(op_tens_mul)
    return out

def remove_relabellings(operators):
    to_remove = set()
    counter = 0
    for i in range(len(operators)):
        for j in range(i + 1, len(operators)):
            mappings = compare_singlets(operators[i], operators[j])
            if exists_identity_mapping(mappings, operators[i]):
                to_remove.add(j)
    return [op for i, op in enumerate(operators) if i not in to_remove]

def invariants(*fields, ignore=['u', 'd', 'c'], remove_relabellings_=True):
    singlets = unsimplified_invariants(*fields, ignore=ignore)
    clean_singlets = clean_operators(singlets)
    if remove_relabellings_:
        return remove_relabellings(clean_singlets)
    return clean_singlets
