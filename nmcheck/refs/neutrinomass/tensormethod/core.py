from collections import defaultdict
from copy import copy, deepcopy
from itertools import groupby
from string import ascii_lowercase
from typing import Iterable
from typing import List
from typing import NamedTuple
from typing import Tuple
from typing import Union
from functools import reduce
import sympy.tensor.tensor as tensor
from basisgen import irrep
from sympy import flatten, Rational
from sympy.core.numbers import Zero
from neutrinomass.tensormethod.lnv import BL_LIST
from neutrinomass.tensormethod.utils import repr_tree, to_tex, TEX_GREEK_LOWERCASE, DOTTED_TEX_GREEK_LOWERCASE, strip_parens
FERMI, BOSE = ('fermi', 'bose')
tensor.TensorManager.set_comms((FERMI, FERMI, 1), (BOSE, BOSE, 0), (FERMI, BOSE, 0), (BOSE, FERMI, 0))
CHARGES = ('y', '3b')

class History(NamedTuple):
    left: 'Field'
    right: 'Field'

class Prod(NamedTuple):
    irrep: 'Field'
    left: Union['Prod', 'Field']
    right: Union['Prod', 'Field']
ISOSPIN = tensor.TensorIndexType('Isospin', metric=True, dummy_fmt='I', dim=2)
COLOUR = tensor.TensorIndexType('Colour', metric=None, dummy_fmt='C', dim=3)
GENERATION = tensor.TensorIndexType('Generation', metric=None, dummy_fmt='G', dim=3)
UNDOTTED = tensor.TensorIndexType('Undotted', metric=True, dummy_fmt='U', dim=2)
DOTTED = tensor.TensorIndexType('Dotted', metric=True, dummy_fmt='D', dim=2)

class Index(tensor.TensorIndex):

    def __new__(cls, label: str, *args, **kwargs):
        if isinstance(label, Index):
            return label
        label = str(label).lower()
        is_up = True
        if label[0] == '-':
            is_up = False
            label = label[1:]
        dummy = True if label[0] == '_' else False
        if dummy:
            label = label[1:] + '_'
        tensor_type = cls.classify_index(label)
        return super(Index, cls).__new__(cls, name=label, tensortype=tensor_type, is_up=is_up)

    def __init__(self, label, *args, **kwargs):
        if isinstance(label, Index):
            self.label = label.label
        self.label = str(label)

    def __neg__(self):
        is_up = self.is_up
        new_label = '-' + self.label if is_up else self.label[1:]
        return Index(label=new_label)

    @property
    def conj(self):
        if self.index_type in Index.get_lorentz_index_types().values():
            if self.index_type == 'Undotted':
                return Index(label=self.label.replace('u', 'd'))
            return Index(label=self.label.replace('d', 'u'))
        if self.index_type == 'Isospin' or self.index_type == 'Generation':
            return self
        return -self

    @property
    def index_type(self):
        return str(self.tensor_index_type)

    @classmethod
    def dynkin(cls, indices):
        up, down = (0, 0)
        for i in indices:
            if i.is_up:
                up += 1
            else:
                down += 1
        return (up, down)

    @classmethod
    def get_dynkin_labels(cls):
        return [(True, 'u'), (True, 'd'), (True, 'c'), (False, 'c'), (True, 'i')]

    @classmethod
    def get_tensor_index_types(cls):
        return {'u': UNDOTTED, 'd': DOTTED, 'c': COLOUR, 'i': ISOSPIN, 'g': GENERATION}

    @classmethod
    def get_index_types(cls):
        return {'u': 'Undotted', 'd': 'Dotted', 'c': 'Colour', 'i': 'Isospin', 'g': 'Generation'}

    @classmethod
    def get_index_labels(cls):
        return {v: k for k, v in cls.get_index_types().items()}

    @classmethod
    def fresh(cls, type_) -> 'Index':
        idx = cls(tensor.TensorIndex(True, cls.get_tensor_index_types()[type_]))
        label = idx.label.replace('i', type_)
        return cls(label)

    @classmethod
    def fresh_indices(cls, dynkin_str) -> str:
        out = []
        for (raised, type_), number in zip(cls.get_dynkin_labels(), dynkin_str):
            for _ in range(int(number)):
                idx = Index.fresh(type_) if raised else -Index.fresh(type_)
                out.append(idx)
        return ' '.join((i.__repr__() for i in out))

    @classmethod
    def get_sm_index_types(cls):
        return {'c': 'Colour', 'i': 'Isospin'}

    @classmethod
    def get_lorentz_index_types(cls):
        return {'u': 'Undotted', 'd': 'Dotted'}

    @property
    def is_su2(self):
        type_ = self.index_type
        return type_ == 'Isospin' or type_ == 'Undotted' or type_ == 'Dotted'

    @classmethod
    def classify_index(cls, idx: str) -> tensor.TensorIndexType:
        char = idx[0] if idx[0] != '-' else idx[1]
        return Index.get_tensor_index_types()[char]

    @classmethod
    def indices_by_type(cls, indices):
        result = {k: [] for k in Index.get_index_types().values()}
        for i in indices:
            result[i.index_type].append(i)
        return {k: tuple(v) for k, v in result.items()}

    @classmethod
    def cons_index(cls, index_type: str, label: int, is_up: bool) -> 'Index':
        prefix = Index.get_index_labels()[index_type]
        prefix = ('-' if not is_up else '') + prefix
        return Index(prefix + str(label))

    @classmethod
    def conj_index_string(cls, index_string: str) -> str:
        indices = [cls(s).conj for s in index_string.split(' ')]
        return ' '.join((str(i) for i in indices))

    @property
    def _dict(self):
        return {'label': self.label}

    def __deepcopy__(self, memo):
        return self

class Field:

    def __init__(self, label: str, dynkin: str, charges=None, is_conj=False, comm=0, symmetry=None, history=None, multiplicity=1, latex=None, nf=1, derivs=0, stripped=None, **kwargs):
        default_charges = {k: 0 for k in CHARGES}
        if charges is None:
            charges = default_charges
        else:
            charges = {**default_charges, **charges}
        assert 'y' in charges.keys()
        proc_charges = {}
        for k, v in charges.items():
            proc_charges[k] = Rational(v)
        charges = proc_charges
        if symmetry is None:
            symmetry = []
            for i in map(int, dynkin):
                if i:
                    symmetry += [[1] * i]
        if not isinstance(dynkin, str):
            dynkin = ''.join((str(i) for i in dynkin))
        if latex is None:
            latex = to_tex(label)
        if nf != 1 and nf != 3:
            raise ValueError('Only currently supporting 1 or 3 generations.')
        self.symmetry = symmetry
        self.history = history
        self.charges = charges
        self.multiplicity = multiplicity
        self.label = label
        self.dynkin = dynkin.strip()
        self.comm = comm
        self.is_conj = is_conj
        self.latex = latex
        self.nf = nf
        self.derivs = derivs
        self.stripped = stripped

    def __call__(self, indices: str) -> 'IndexedField':
        dynkin_ints = [int(i) for i in self.dynkin]
        su2_plus, su2_minus, su3_up, su3_down, su2 = dynkin_ints
        index_types = [UNDOTTED] * su2_plus + [DOTTED] * su2_minus + [COLOUR] * (su3_up + su3_down) + [ISOSPIN] * su2
        assert_consistent_indices([i for i in indices.split() if i[0] != 'g'], index_types, (su3_up, su3_down))
        return IndexedField(label=self.label_with_dagger, indices=indices, charges=self.charges, is_conj=self.is_conj, symmetry=self.symmetry, comm=self.comm, latex=self.latex, nf=self.nf, derivs=self.derivs, stripped=self.stripped)

    @property
    def label_with_dagger(self):
        maybe_conj = '†' if self.is_conj else ''
        return self.label + maybe_conj

    def __repr__(self):
        return self.label_with_dagger + f'({self.dynkin})({self.y})'
    __str__ = __repr__

    @property
    def qn_string(self):
        if self.is_scalar:
            lor = 'S'
        elif self.is_fermion:
            lor = 'F'
        else:
            lor = 'X'
        return lor + self.dynkin[2:] + f'({self.y})({self.charges['3b']})'

    @property
    def y(self):
        return self.charges['y']

    @property
    def dynkin_ints(self):
        return tuple([int(i) for i in self.dynkin])

    @property
    def lorentz_irrep(self):
        return self.dynkin_ints[:2]

    @property
    def sm_irrep(self):
        return self.dynkin_ints[2:]

    @property
    def colour_irrep(self):
        return self.sm_irrep[:2]

    @property
    def isospin_irrep(self):
        return self.sm_irrep[2:]

    @property
    def quantum_numbers(self):
        return self.sm_irrep + (self.y,)

    @property
    def is_scalar(self):
        return self.lorentz_irrep == (0, 0)

    @property
    def is_boson(self):
        return sum(self.lorentz_irrep) % 2 == 0

    @property
    def is_left_fermion(self):
        return self.lorentz_irrep == (1, 0)

    @property
    def is_right_fermion(self):
        return self.lorentz_irrep == (0, 1)

    @property
    def is_fermion(self):
        return not self.is_boson

    @property
    def is_vector(self):
        return self.lorentz_irrep == (1, 1)

    @property
    def is_singlet(self):
        return self.dynkin == '00000' and self.y == 0

    @property
    def is_sm_singlet(self):
        return self.sm_irrep == (0, 0, 0) and self.y == 0

    @property
    def is_real_sm_irrep(self):
        is_real_colour = self.colour_irrep == tuple(reversed(self.colour_irrep))
        is_real_isospin = self.isospin_irrep[0] % 2 == 0
        is_real_y = self.y == 0
        return is_real_colour and is_real_isospin and is_real_y

    def __str__(self):
        return self.__repr__()

    @property
    def _dict(self):
        return {'label': self.label, 'dynkin': self.dynkin, 'charges': self.charges, 'is_conj': self.is_conj, 'comm': self.comm, 'symmetry': self.symmetry, 'nf': self.nf, 'derivs': self.derivs, 'stripped': self.stripped}

    def __hash__(self):
        unhashable = ('charges', 'symmetry', 'stripped')
        values = [v for k, v in self._dict.items() if not k in unhashable]
        symmetry_tuple = tuple(map(tuple, self._dict['symmetry']))
        charges_tuple = tuple(sorted(self.charges.items()))
        data = tuple(values) + (symmetry_tuple,) + (charges_tuple,)
        return hash(data)

    def __eq__(self, other):
        if not isinstance(other, self.__class__):
            return False
        return self._dict == other._dict

    def __mul__(self, other):
        grp = 'SU2 x SU2 x SU3 x SU2'
        self_irrep = irrep(grp, ' '.join(self.dynkin))
        other_irrep = irrep(grp, ' '.join(other.dynkin))
        prod_dict = self_irrep * other_irrep
        assert self.charges.keys() == other.charges.keys()
        charges = {}
        for k, v in dict(self.charges).items():
            charges[k] = v + dict(other.charges)[k]
        new_hist = History(left=self, right=other)
        irreps = [Field(self.label_with_dagger + other.label_with_dagger, k.highest_weight.components, charges=charges, history=new_hist, multiplicity=v) for k, v in prod_dict.items()]
        return irreps

    @property
    def conj(self):
        dynkin = self.lorentz_irrep[::-1] + self.colour_irrep[::-1] + self.isospin_irrep
        return self.__class__(label=self.label, dynkin=''.join((str(d) for d in dynkin)), charges={k: -v for k, v in self.charges.items()}, is_conj=not self.is_conj, symmetry=self.symmetry, history=self.history, multiplicity=self.multiplicity, comm=self.comm, latex=self.latex, nf=self.nf, derivs=self.derivs, stripped=conj_stripped(self.stripped))

    def walked(self) -> Prod:
        if not self.history:
            return self
        return Prod(irrep=self, left=self.history.left.walked(), right=self.history.right.walked())

    def pprint(self) -> None:
        print(repr_tree(self.walked()))

    def fresh_indices(self) -> 'IndexedField':
        fresh_indices = Index.fresh_indices(self.dynkin)
        label = self.label_with_dagger if not isinstance(self, IndexedField) else self.label
        g = ''
        if self.nf > 1:
            g += ' '
            g += str(Index.fresh('g'))
        return IndexedField(label=label, indices=fresh_indices + g, charges=self.charges, is_conj=self.is_conj, symmetry=self.symmetry, comm=self.comm, latex=self.latex, nf=self.nf, derivs=self.derivs, stripped=self.stripped)

    def get_latex(self):
        if self.is_conj:
            if self.isospin_irrep != (0,):
                if self.derivs == 0:
                    return f'\\tilde{{{self.latex}}}'
                return self.latex
            if self.derivs != 0:
                return self.latex
            return '{' + self.latex + '^{\\dagger}}'
        return self.latex

    @property
    def mass_dim(self):
        if self.is_fermion:
            return 1.5
        if self.is_scalar or self.is_vector:
            return 1
        raise Exception(f'Unknown mass dimension for lorentz irrep {self.lorentz_irrep}')

    @classmethod
    def dynkin_difference(cls, dynkin_1: str, dynkin_2: str):
        import numpy as np
        dyn_array_1 = np.array(list(map(int, dynkin_1)))
        dyn_array_2 = np.array(list(map(int, dynkin_2)))
        return list(dyn_array_2 - dyn_array_1)

class IndexedField(tensor.Tensor, Field):

    def __new__(cls, label: str, indices: str, symmetry=None, comm=0, **kwargs):
        if isinstance(indices, str):
            indices = indices.split()
        tensor_indices = [Index(i) for i in indices]
        index_types = [i.tensor_index_type for i in tensor_indices]
        if symmetry is None:
            n_gauge_indices = len(indices) if GENERATION not in index_types else len(indices) - 1
            symmetry = [[1] * n_gauge_indices] if indices else []
        if isinstance(label, tensor.TensorHead):
            tensor_head = label
            label = str(label.args[0])
        else:
            sym = symmetry + ([[1]] if GENERATION in index_types else [])
            tensor_head = tensor.tensorhead(label, index_types, sym=sym, comm=comm)
        return super(IndexedField, cls).__new__(cls, tensor_head, tensor_indices)

    def __init__(self, label, indices, charges=None, is_conj=False, symmetry=None, comm=0, latex=None, nf=1, derivs=0, stripped=None, **kwargs):
        if isinstance(label, tensor.TensorHead):
            label = str(label.args[0])
        Field.__init__(self, label=label, dynkin=get_dynkin(indices), charges=charges, is_conj=is_conj, symmetry=symmetry, comm=comm, latex=latex, nf=nf, derivs=derivs, stripped=stripped)
        labels = indices.split() if isinstance(indices, str) else indices
        self.index_labels = ' '.join((str(i) for i in labels))

    @property
    def field(self):
        return Field(label=self.label if not self.is_conj else self.label[:-1], dynkin=self.dynkin, charges=self.charges, is_conj=self.is_conj, symmetry=self.symmetry, comm=self.comm, latex=self.latex, nf=self.nf, derivs=self.derivs, stripped=self.stripped)

    def substitute_indices(self, *indices):
        new_indices = copy(self.indices)
        for i, j in indices:
            for pos, idx in enumerate(self.indices):
                if i == idx:
                    self.indices[pos] = j

    def substituted_indices(self, *indices):
        new_indices = copy(self.indices)
        for i, j in indices:
            for pos, idx in enumerate(self.indices):
                if i == idx:
                    new_indices[pos] = j
        return IndexedField(label=self.label, indices=new_indices, charges=self.charges, is_conj=self.is_conj, symmetry=self.symmetry, multiplicity=self.multiplicity, comm=self.comm, latex=self.latex, nf=self.nf, derivs=self.derivs, stripped=self.stripped)

    @property
    def conj(self):
        is_conj = self.is_conj
        if is_conj:
            label = self.label.replace('†', '')
        else:
            label = self.label + '†'
        return self.__class__(label=label, indices=' '.join((i.conj.label for i in self.indices)), charges={k: -v for k, v in self.charges.items()}, is_conj=not is_conj, symmetry=self.symmetry, latex=self.latex, comm=self.comm, nf=self.nf, derivs=self.derivs, stripped=conj_stripped(self.stripped))

    @property
    def indices_by_type(self):
        return Index.indices_by_type(indices=self.indices)

    @property
    def _dynkins(self):
        return {k: Index.dynkin(v) for k, v in self.indices_by_type.items()}

    @property
    def _dict(self):
        return {'label': self.label, 'indices': self.index_labels, 'charges': self.charges, 'is_conj': self.is_conj, 'symmetry': self.symmetry, 'comm': self.comm, 'latex': self.latex, 'nf': self.nf, 'derivs': self.derivs, 'stripped': self.stripped}

    @property
    def pmatch_data(self):
        return (self._dict['label'], tuple(self.indices_by_type.items()), tuple(sorted(self._dict['charges'].items(), key=lambda x: x[0])), self._dict['comm'], self.derivs, self.is_conj)

    def __hash__(self):
        charges_tuple = tuple(sorted(self.charges.items()))
        return hash((self.label, tuple(self.indices), self.dynkin, charges_tuple, self.is_conj, self.comm))

    def __mul__(self, other):
        prod = normalise_operator_input(self, other)
        return Operator(*prod)

    def __add__(self, other):
        pass

    def __repr__(self):
        sympy_repr = super(IndexedField, self).__repr__()
        return sympy_repr

    def __str__(self):
        return self.__repr__()

    def __eq__(self, other):
        if not isinstance(other, self.__class__):
            return False
        return self._dict == other._dict

    def __deepcopy__(self, memo):
        return self.__class__(**deepcopy(self._dict, memo))

    def __lt__(self, other):
        comp_func = lambda x: f'{x.label}{x.dynkin}{x.indices}{x.charges}{x.is_conj}'
        return comp_func(self) < comp_func(other)

    def latex_and_pop(self, index_dict: dict, style: dict) -> str:
        if self.latex is None:
            raise ValueError(f'No latex string assigned to {self}')
        indices = []
        for index in self.indices:
            type_ = Index.get_index_labels()[index.index_type]
            if type_ in style:
                index_string = style[type_].pop(0)
                index_dict[index] = index_string
                indices.append(index_string)
        if not indices:
            return self.get_latex()
        return f'{self.get_latex()}^{{{' '.join(indices)}}}'

    def strip_derivs(self):
        if self.derivs == 0:
            return self
        other = {'is_conj': self.is_conj, 'comm': self.comm, 'nf': self.nf, 'derivs': 0, 'charges': {k: v for k, v in self.charges.items()}, 'stripped': None}
        kwargs = {**self.stripped, **other}
        return Field(**kwargs)

    @property
    def gauge_indices(self):
        return [i for i in self.indices if i.index_type not in ('Dotted', 'Undotted')]

    def strip_derivs_with_indices(self):
        if self.derivs == 0:
            return self
        field = self.strip_derivs()
        undotted, dotted, colour, isospin, _ = self.indices_by_type.values()
        indices = ' '.join((str(i) for i in colour + isospin))
        lorentz = undotted + dotted
        if field.is_fermion and self.derivs % 2 == 0:
            lorentz = lorentz[0]
            indices = str(lorentz) + ' ' + indices
        elif field.is_fermion:
            lorentz = lorentz[0].conj
            lorentz = str(lorentz) + '∂'
            indices = str(lorentz) + ' ' + indices
        return field(indices)

class Operator(tensor.TensMul):

    def __new__(cls, *args, **kwargs):
        return super(Operator, cls).__new__(cls, *args, **kwargs)

    def __init__(self, *args, **kwargs):
        self.tensors = [arg for arg in args if arg != 1]

    @property
    def _dict(self):
        return {'tensors': self.tensors}

    @property
    def contains_derivative(self):
        for t in self.tensors:
            if str(t).startswith('D'):
                return True
            if str(t).startswith('G'):
                return True
            if str(t).startswith('W'):
                return True
            if str(t).startswith('B'):
                return True
        return False

    @property
    def BL_classification(self):
        if self.contains_derivative:
            return -1
        sorted_fields = tuple(sorted((f.label_with_dagger.replace('†', '.conj') for f in self.fields)))
        if sorted_fields not in BL_LIST:
            return -1
        return BL_LIST[sorted_fields]

    @property
    def free_indices(self):
        return self.get_free_indices()

    @property
    def indexed_fields(self):
        return [f for f in self.tensors if isinstance(f, IndexedField)]

    @property
    def epsilons(self):
        return [f for f in self.tensors if not isinstance(f, IndexedField)]

    @property
    def fields(self):
        return [f.field for f in self.indexed_fields]

    def pickle_form(self):
        return {'fields': [f._dict for f in self.indexed_fields], 'epsilons': [[i.label for i in e.indices] for e in self.epsilons]}

    @classmethod
    def from_pickle_form(cls, pickle_form: dict):
        fields = pickle_form['fields']
        epsilons = []
        for indices in pickle_form['epsilons']:
            is_delta = len(indices) == 2 and Index(indices[0]).index_type == 'Colour'
            symbol = delta if is_delta else eps
            epsilons.append(symbol(' '.join(indices)))
        indexed_fields = [IndexedField(**d) for d in fields]
        return cls(*indexed_fields, *epsilons)

    @property
    def structures(self):
        return [f for f in self.args if is_invariant_symbol(f)]

    def by_structures(self):
        order = Index.get_tensor_index_types().values()
        out = []
        for index_type in order:
            out.append([])
            for symbol in self.structures:
                if symbol.indices[0].tensor_index_type == index_type:
                    out[-1].append(symbol)
        return [l for l in out if l]

    def by_epsilon_structures(self):
        order = Index.get_tensor_index_types().values()
        out = []
        for index_type in order:
            out.append([])
            for symbol in self.epsilons:
                if symbol.indices[0].tensor_index_type == index_type:
                    out[-1].append(symbol)
        return [l for l in out if l]

    @property
    def duplicate_fields(self):
        key_func = lambda f: str(f.args[0].args[0])
        fields = [t for t in self.args if not str(t).startswith('Eps')]
        sorted_fields = sorted(fields, key=key_func)
        out = {}
        for k, g in groupby(sorted_fields, key=key_func):
            g = list(g)
            if len(g) > 1:
                out[k] = flatten([f.indices for f in g])
        return out

    @property
    def safe_nocoeff(self):
        return self.nocoeff if not isinstance(self, Zero) else 0

    def simplify(self, fill=False):
        if fill:
            simple = self.fill_free_indices().sorted_components().canon_bp()
        else:
            simple = self.sorted_components().canon_bp()
        for label, tensor_index_type in Index.get_tensor_index_types().items():
            if label in {'u', 'd', 'i'}:
                if isinstance(simple, Zero):
                    return 0
                else:
                    simple = simple.contract_metric(tensor_index_type.metric)
        return simple.canon_bp()

    def safe_simplify(self):
        try:
            return self.simplify()
        except IndexError:
            unindexed, indexed = ([], [])
            for f in self.tensors:
                if f.get_indices():
                    indexed.append(f)
                else:
                    unindexed.append(f)
            if not indexed:
                return self
            indexed_op = reduce(lambda x, y: x * y, indexed)
            return reduce(lambda x, y: x * y, unindexed, indexed_op.simplify())

    def is_equivalent_to(self, other: 'Operator'):
        return self.nocoeff == other.nocoeff

    def fill_free_indices(self):
        store = defaultdict(int)
        replacements = []
        for index_type, idxs in self.indices_by_type.items():
            for i in idxs:
                n = store[Index.get_index_labels()[index_type]]
                new_index = Index.cons_index(index_type, n, i.is_up)
                store[Index.get_index_labels()[index_type]] += 1
                replacements.append((i, new_index))
        tensors = [t.fun_eval(*replacements) for t in self.tensors]
        prod = normalise_operator_input(*tensors)
        return Operator(*prod)

    @property
    def indices_by_type(self):
        return Index.indices_by_type(indices=self.free_indices)

    @property
    def dynkin(self):
        return get_dynkin(' '.join((str(i) for i in self.free_indices)))

    @property
    def dynkin_ints(self):
        return [int(i) for i in self.dynkin]

    def __mul__(self, other):
        prod = normalise_operator_input(*self.tensors, other)
        return Operator(*prod)

    def latex(self, ignore=None):
        field_ordering = ['L', 'e', 'Q', 'u', 'd', 'H', 'B', 'W', 'G']
        for field in self.indexed_fields:
            f, fc = (field, field.conj)
            if hasattr(f, 'label') and (not f.label in field_ordering):
                field_ordering.append(f.label.replace('~', ''))
                field_ordering.append(fc.label.replace('~', ''))
        isospin_indices = list(ascii_lowercase[8:])
        isospin_indices.remove('o')
        style = {'i': isospin_indices, 'c': list(ascii_lowercase[:8]), 'u': copy(TEX_GREEK_LOWERCASE), 'd': copy(DOTTED_TEX_GREEK_LOWERCASE)}
        if ignore is not None:
            for char in ignore:
                style.pop(char)
        first_non_deriv = lambda f: str(f).split('D')[-1][0]
        order_func = lambda f: field_ordering.index(first_non_deriv(f))
        sorted_fields = sorted(self.indexed_fields, key=order_func)
        index_dict = {}
        latex_strings = []
        for indexed_field in sorted_fields:
            field_latex = indexed_field.latex_and_pop(index_dict, style)
            latex_strings.append(field_latex)
        latex_epsilons = []
        for epsilon in self.epsilons:
            symb = '\\epsilon'
            if str(epsilon)[0] == 'K':
                symb = '\\delta'
            eps_indices = []
            for idx in epsilon.indices:
                if -idx not in index_dict.keys():
                    type_ = Index.get_index_labels()[idx.index_type]
                    index_string = style[type_].pop(0)
                    index_dict[-idx] = index_string
                    index_dict[idx] = index_string
                eps_indices.append(index_dict[-idx])
            eps_indices.sort()
            eps_latex = f'{symb}_{{{' '.join(eps_indices)}}}'
            latex_epsilons.append(eps_latex)
        if latex_epsilons:
            latex_strings += [' \\cdot '] + sorted(latex_epsilons)
        return ' '.join(latex_strings)

    def _repr_html_(self):
        return f'${self.latex()}$'

    def __deepcopy__(self, memo):
        return self.__class__(*deepcopy(self.tensors, memo))

    @property
    def mass_dim(self):
        return sum((f.mass_dim for f in self.fields))

def conj_stripped(stripped):
    if stripped is None:
        return None
    u, d, cu, cd, i = stripped['dynkin']
    return {**stripped, 'dynkin': d + u + cd + cu + i, 'charges': {k: -v for k, v in stripped['charges'].items()}}

def assert_consistent_indices(indices: List[str], index_types: List[tensor.TensorIndexType], colour: Tuple[int, int]):
    assert len(indices) == len(index_types)
    up_count, down_count = (0, 0)
    for i, t in zip(indices, index_types):
        assert Index(i).tensor_index_type == t
        if t == COLOUR:
            if i[0] == '-':
                down_count += 1
            else:
                up_count += 1
        else:
            assert i[0] != '-'
    assert (up_count, down_count) == colour

def get_dynkin(indices: Union[str, Iterable[Index]]):
    dynkin = {'Undotted': {True: 0}, 'Dotted': {True: 0}, 'Colour': {True: 0, False: 0}, 'Isospin': {True: 0}}
    if isinstance(indices, str):
        indices = indices.split()
    for i in indices:
        idx = Index(i)
        if idx.index_type == 'Generation':
            continue
        dynkin[idx.index_type][idx.is_up] += 1
    flat_dynkin = flatten(map(lambda x: list(x.values()), dynkin.values()))
    return ''.join((str(x) for x in flat_dynkin))

def decompose_product(*fields) -> List[Field]:
    if len(fields) == 1:
        return fields[0]
    if len(fields) == 2:
        fst, snd = fields
        return fst * snd
    fst, snd, *rst = fields
    result = map(lambda x: decompose_product(x, *rst), fst * snd)
    return flatten(result)

def eps(indices: str):
    indices = [Index(i) for i in indices.split()]
    t = indices[0].index_type
    tensor_index_type = indices[0].tensor_index_type
    assert t in Index.get_index_types().values()
    if not t == Index.get_index_types()['c']:
        assert len(indices) == 2
        for i in indices:
            assert not i.is_up
        return tensor_index_type.metric(*indices)
    assert len(indices) == 3
    position = indices[0].is_up
    for i in indices:
        assert position == i.is_up
    return tensor_index_type.epsilon(*indices)

def delta(indices: str):
    indices = [Index(i) for i in indices.split()]
    assert len(indices) == 2
    i, j = indices
    assert i.index_type == Index.get_index_types()['c']
    assert j.index_type == Index.get_index_types()['c']
    assert i.is_up
    assert not j.is_up
    return Index.get_tensor_index_types()['c'].delta(*indices)

def is_invariant_symbol(tensor):
    str_tensor = str(tensor)
    return str_tensor.startswith('Eps') or str_tensor.startswith('KD') or str_tensor.startswith('metric')

def normalise_operator_input(*args):
    new_product = []
    for fac in args:
        if isinstance(fac, tensor.TensMul):
            new_product += list(fac.args)
        else:
            new_product.append(fac)
    return sorted(new_product, key=type)

def D(field, dynkin):
    undotted_delta = int(dynkin[0]) - field.dynkin_ints[0]
    dotted_delta = int(dynkin[1]) - field.dynkin_ints[1]
    assert abs(undotted_delta) == 1
    assert abs(dotted_delta) == 1
    deriv_symbol = 'D'
    symbol = deriv_symbol + field.label
    new_field_dynkin = dynkin + field.dynkin[2:]
    rest = {'charges': field.charges, 'comm': field.comm, 'is_conj': field.is_conj, 'nf': field.nf, 'stripped': field.stripped}
    new_field = Field(symbol, dynkin=new_field_dynkin, **rest)
    new_field.latex = f'(D{strip_parens(field.get_latex())})'
    new_field.derivs = field.derivs + 1
    if new_field.stripped is None:
        new_field.stripped = {'label': field.label, 'dynkin': field.dynkin, 'symmetry': field.symmetry, 'charges': field.charges, 'latex': field.latex}
    return new_field
