from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
from neutrinomass.database.utils import table_data
from neutrinomass.database import MVDF
import pickle
from collections import Counter
import os

def print_paper_table():
    operator_latex = {}
    operator_latex['1'] = '$L^{i} L^{j} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['2'] = '$L^{i} L^{j} L^{k} \\bar{e} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['3a'] = '$L^{i} L^{j} Q^{k} \\bar{d} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['3b'] = '$L^{i} L^{j} Q^{k} \\bar{d} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['4a'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\bar{u}^{\\dagger} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['4b'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\bar{u}^{\\dagger} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['5a'] = '$L^{i} L^{j} Q^{k} \\bar{d} H^{l} H^{m} \\tilde{H}^{n}  \\cdot \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k m}$'
    operator_latex['5b'] = '$\\mathcal{O}_1 \\cdot Q^{i} \\bar{d} \\tilde{H}^{j}  \\cdot \\epsilon_{i j}$'
    operator_latex['5c'] = '$\\mathcal{O}_{3a} \\cdot H^{i} \\tilde{H}^{j}  \\cdot \\epsilon_{i j}$'
    operator_latex['5d'] = '$\\mathcal{O}_{3b} \\cdot H^{i} \\tilde{H}^{j}  \\cdot \\epsilon_{i j}$'
    operator_latex['6a'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\bar{u}^{\\dagger} H^{l} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k m}$'
    operator_latex['6b'] = '$\\mathcal{O}_1 \\cdot \\tilde{Q}^{i} \\bar{u}^{\\dagger} \\tilde{H}^{j}  \\cdot  \\epsilon_{i j}$'
    operator_latex['6c'] = '$\\mathcal{O}_{4a} \\cdot H^{i} \\tilde{H}^{j}  \\cdot  \\epsilon_{i j}$'
    operator_latex['6d'] = '$\\mathcal{O}_{4b} \\cdot H^{i} \\tilde{H}^{j}  \\cdot  \\epsilon_{i j}$'
    operator_latex['7'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\tilde{Q}^{k} H^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['8'] = '$L^{i} \\bar{e}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d} H^{j}  \\cdot  \\epsilon_{i j}$'
    operator_latex['9'] = '$L^{i} L^{j} L^{k} L^{l} \\bar{e} \\bar{e}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['10'] = '$L^{i} L^{j} L^{k} \\bar{e} Q^{l} \\bar{d}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['11a'] = '$L^{i} L^{j} Q^{k} Q^{l} \\bar{d} \\bar{d}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['11b'] = '$L^{i} L^{j} Q^{k} Q^{l} \\bar{d} \\bar{d}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['12a'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['12b'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['13'] = '$L^{i} L^{j} L^{k} \\bar{e} \\tilde{Q}^{l} \\bar{u}^{\\dagger}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['14a'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{d}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['14b'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{d}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['15'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{u}^{\\dagger} \\bar{d}  \\cdot \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['16'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d}  \\cdot  \\epsilon_{i j}$'
    operator_latex['17'] = '$L^{i} L^{j} \\bar{u}^{\\dagger} \\bar{d} \\bar{d} \\bar{d}^{\\dagger}  \\cdot  \\epsilon_{i j}$'
    operator_latex['18'] = '$L^{i} L^{j} \\bar{u} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d}  \\cdot  \\epsilon_{i j}$'
    operator_latex['19'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\bar{u}^{\\dagger} \\bar{d} \\bar{d}  \\cdot  \\epsilon_{i j}$'
    operator_latex['20'] = '$L^{i} \\bar{e}^{\\dagger} \\tilde{Q}^{j} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d}  \\cdot  \\epsilon_{i j}$'
    operator_latex['21a'] = '$L^{i} L^{j} L^{k} \\bar{e} Q^{l} \\bar{u} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['21b'] = '$L^{i} L^{j} L^{k} \\bar{e} Q^{l} \\bar{u} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['22a'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{e} \\bar{e}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['22b'] = '$\\mathcal{O}_2 \\cdot \\tilde{L}^i \\bar{e}^\\dagger H^j \\epsilon_{ij}$'
    operator_latex['23a'] = '$L^{i} L^{j} L^{k} \\bar{e} \\tilde{Q}^{l} \\bar{d}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['23b'] = '$\\mathcal{O}_2 \\cdot \\tilde{Q}^i \\bar{d}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['24a'] = '$L^{i} L^{j} Q^{k} Q^{l} \\bar{d} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k m}$'
    operator_latex['24b'] = '$L^{i} L^{j} Q^{k} Q^{l} \\bar{d} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['24c'] = '$\\mathcal{O}_{3a} \\cdot Q^i \\bar{d} \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['24d'] = '$\\mathcal{O}_{3b} \\cdot Q^i \\bar{d} \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['24e'] = '$\\mathcal{O}_{11a} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['24f'] = '$\\mathcal{O}_{11b} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['25a'] = '$L^{i} L^{j} Q^{k} Q^{l} \\bar{u} \\bar{d} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['25b'] = '$\\mathcal{O}_{3a} \\cdot Q^i \\bar{u} H^j \\cdot \\epsilon_{ij}$'
    operator_latex['25c'] = '$\\mathcal{O}_{3b} \\cdot Q^i \\bar{u} H^j \\cdot \\epsilon_{ij}$'
    operator_latex['26a'] = '$L^{i} L^{j} \\tilde{L}^{k} \\bar{e}^{\\dagger} Q^{l} \\bar{d} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['26b'] = '$L^{i} L^{j} \\tilde{L}^{k} \\bar{e}^{\\dagger} Q^{l} \\bar{d} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['26c'] = '$\\mathcal{O}_{3a} \\cdot \\tilde{L}^i \\bar{e}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['26d'] = '$\\mathcal{O}_{3b} \\cdot \\tilde{L}^i \\bar{e}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['27a'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{d} \\bar{d}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['27b'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{d} \\bar{d}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['27c'] = '$\\mathcal{O}_{3a} \\cdot \\tilde{Q}^i \\bar{d}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['27d'] = '$\\mathcal{O}_{3b} \\cdot \\tilde{Q}^i \\bar{d}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['28a'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k m}$'
    operator_latex['28b'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['28c'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j n} \\epsilon_{l m}$'
    operator_latex['28d'] = '$\\mathcal{O}_{3a} \\cdot \\tilde{Q}^i \\bar{u}^\\dagger \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['28e'] = '$\\mathcal{O}_{3b} \\cdot \\tilde{Q}^i \\bar{u}^\\dagger \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['28f'] = '$\\mathcal{O}_{4a} \\cdot Q^i \\bar{d} \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['28g'] = '$\\mathcal{O}_{4b} \\cdot Q^i \\bar{d} \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['28h'] = '$\\mathcal{O}_{14a} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['28i'] = '$\\mathcal{O}_{14b} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['29a'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{u} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['29b'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} \\bar{u} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['29c'] = '$\\mathcal{O}_{4a} \\cdot Q^i \\bar{u} H^j \\cdot \\epsilon_{ij}$'
    operator_latex['29d'] = '$\\mathcal{O}_{4b} \\cdot Q^i \\bar{u} H^j \\cdot \\epsilon_{ij}$'
    operator_latex['30a'] = '$L^{i} L^{j} \\tilde{L}^{k} \\bar{e}^{\\dagger} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['30b'] = '$L^{i} L^{j} \\tilde{L}^{k} \\bar{e}^{\\dagger} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['30c'] = '$\\mathcal{O}_{4a} \\cdot \\tilde{L}^i \\bar{e}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['30d'] = '$\\mathcal{O}_{4b} \\cdot \\tilde{L}^i \\bar{e}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['31a'] = '$\\mathcal{O}_{4a} \\cdot \\tilde{Q}^i \\bar{d}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['31b'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{d}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['31c'] = '$\\mathcal{O}_{4b} \\cdot \\tilde{Q}^i \\bar{d}^\\dagger H^j \\cdot \\epsilon_{ij}$'
    operator_latex['32a'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k m}$'
    operator_latex['32b'] = '$L^{i} L^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['32c'] = '$\\mathcal{O}_{4a} \\cdot \\tilde{Q}^i \\bar{u}^\\dagger \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['32d'] = '$\\mathcal{O}_{4b} \\cdot \\tilde{Q}^i \\bar{u}^\\dagger \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['32e'] = '$\\mathcal{O}_{12a} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['32f'] = '$\\mathcal{O}_{12b} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['33'] = '$\\mathcal{O}_1 \\cdot \\bar{e} \\bar{e} \\bar{e}^{\\dagger} \\bar{e}^{\\dagger}$'
    operator_latex['34'] = '$L^{i} \\bar{e} \\bar{e}^{\\dagger} \\bar{e}^{\\dagger} Q^{j} \\bar{d} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['35'] = '$L^{i} \\bar{e} \\bar{e}^{\\dagger} \\bar{e}^{\\dagger} \\tilde{Q}^{j} \\bar{u}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['36'] = '$\\bar{e}^{\\dagger} \\bar{e}^{\\dagger} Q^{i} Q^{j} \\bar{d} \\bar{d} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['37'] = '$\\bar{e}^{\\dagger} \\bar{e}^{\\dagger} Q^{i} \\tilde{Q}^{j} \\bar{u}^{\\dagger} \\bar{d} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['38'] = '$\\bar{e}^{\\dagger} \\bar{e}^{\\dagger} \\tilde{Q}^{i} \\tilde{Q}^{j} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['39a'] = '$\\mathcal{O}_1 \\cdot L^{i} L^{j} \\tilde{L}^{k} \\tilde{L}^{l} \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['39b'] = '$L^{i} L^{j} L^{k} L^{l} \\tilde{L}^{m} \\tilde{L}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i k} \\epsilon_{j l} \\epsilon_{m p} \\epsilon_{n q}$'
    operator_latex['39c'] = '$L^{i} L^{j} L^{k} L^{l} \\tilde{L}^{m} \\tilde{L}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k p} \\epsilon_{m q}$'
    operator_latex['39d'] = '$\\mathcal{O}_1 \\cdot L^{i} L^{j} \\tilde{L}^{k} \\tilde{L}^{l} \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['40a'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k p} \\epsilon_{m q}$'
    operator_latex['40b'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i l} \\epsilon_{j p} \\epsilon_{k q} \\epsilon_{m n}$'
    operator_latex['40c'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i n} \\epsilon_{j p} \\epsilon_{k q} \\epsilon_{l m}$'
    operator_latex['40d'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i k} \\epsilon_{j l} \\epsilon_{m p} \\epsilon_{n q}$'
    operator_latex['40e'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k p} \\epsilon_{n q}$'
    operator_latex['40f'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i k} \\epsilon_{j n} \\epsilon_{l p} \\epsilon_{m q}$'
    operator_latex['40g'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k p} \\epsilon_{l q}$'
    operator_latex['40h'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l p} \\epsilon_{n q}$'
    operator_latex['40i'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i m} \\epsilon_{j p} \\epsilon_{k q} \\epsilon_{l n}$'
    operator_latex['40j'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i k} \\epsilon_{j p} \\epsilon_{l n} \\epsilon_{m q}$'
    operator_latex['40k'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i k} \\epsilon_{j p} \\epsilon_{l m} \\epsilon_{n q}$'
    operator_latex['40l'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} Q^{m} \\tilde{Q}^{n} H^{p} H^{q} \\cdot  \\epsilon_{i k} \\epsilon_{j p} \\epsilon_{l q} \\epsilon_{m n}$'
    operator_latex['41a'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{d} \\bar{d}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['41b'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{d} \\bar{d}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['42a'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{u} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['42b'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{u} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['43a'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{u}^{\\dagger} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j n} \\epsilon_{l m}$'
    operator_latex['43b'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{u}^{\\dagger} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['43c'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{u}^{\\dagger} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['43d'] = '$L^{i} L^{j} L^{k} \\tilde{L}^{l} \\bar{u}^{\\dagger} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j l} \\epsilon_{m n}$'
    operator_latex['44a'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} Q^{k} \\tilde{Q}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['44b'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} Q^{k} \\tilde{Q}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['44c'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} Q^{k} \\tilde{Q}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i j} \\epsilon_{k m} \\epsilon_{l n}$'
    operator_latex['44d'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} Q^{k} \\tilde{Q}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['45'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} \\bar{d} \\bar{d}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['46'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} \\bar{u} \\bar{u}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['47a'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k p} \\epsilon_{l q}$'
    operator_latex['47b'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i m} \\epsilon_{j p} \\epsilon_{k n} \\epsilon_{l q}$'
    operator_latex['47c'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i p} \\epsilon_{j q} \\epsilon_{k m} \\epsilon_{l n}$'
    operator_latex['47d'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k p} \\epsilon_{m q}$'
    operator_latex['47e'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i n} \\epsilon_{j p} \\epsilon_{k l} \\epsilon_{m q}$'
    operator_latex['47f'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i j} \\epsilon_{k n} \\epsilon_{l p} \\epsilon_{m q}$'
    operator_latex['47g'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i l} \\epsilon_{j p} \\epsilon_{k n} \\epsilon_{m q}$'
    operator_latex['47h'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i j} \\epsilon_{k p} \\epsilon_{l q} \\epsilon_{m n}$'
    operator_latex['47i'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i l} \\epsilon_{j p} \\epsilon_{k q} \\epsilon_{m n}$'
    operator_latex['47j'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i p} \\epsilon_{j q} \\epsilon_{k l} \\epsilon_{m n}$'
    operator_latex['47k'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i k} \\epsilon_{j l} \\epsilon_{m p} \\epsilon_{n q}$'
    operator_latex['47l'] = '$L^{i} L^{j} Q^{k} Q^{l} \\tilde{Q}^{m} \\tilde{Q}^{n} H^{p} H^{q}  \\cdot  \\epsilon_{i j} \\epsilon_{k l} \\epsilon_{m p} \\epsilon_{n q}$'
    operator_latex['48'] = '$L^{i} L^{j} \\bar{d} \\bar{d} \\bar{d}^{\\dagger} \\bar{d}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['49'] = '$L^{i} L^{j} \\bar{u} \\bar{u}^{\\dagger} \\bar{d} \\bar{d}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['50a'] = '$L^{i} L^{j} \\bar{u}^{\\dagger} \\bar{d} \\bar{d} \\bar{d}^{\\dagger} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['50b'] = '$\\mathcal{O}_{17} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['51'] = '$L^{i} L^{j} \\bar{u} \\bar{u} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['52a'] = '$L^{i} L^{j} \\bar{u} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['52b'] = '$\\mathcal{O}_{18} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['53'] = '$L^{i} L^{j} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d} \\bar{d} \\tilde{H}^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['54a'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} Q^{k} \\tilde{Q}^{l} \\bar{d} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['54b'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} Q^{k} \\tilde{Q}^{l} \\bar{d} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j l} \\epsilon_{k n}$'
    operator_latex['54c'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} Q^{k} \\tilde{Q}^{l} \\bar{d} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j k} \\epsilon_{l n}$'
    operator_latex['54d'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} Q^{k} \\tilde{Q}^{l} \\bar{d} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['55a'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['55b'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j l} \\epsilon_{k n}$'
    operator_latex['55c'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['55d'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\tilde{Q}^{k} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} H^{n}  \\cdot  \\epsilon_{i j} \\epsilon_{k m} \\epsilon_{l n}$'
    operator_latex['56'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\bar{d} \\bar{d} \\bar{d}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['57'] = '$L^{i} \\bar{e}^{\\dagger} \\tilde{Q}^{j} \\bar{u}^{\\dagger} \\bar{d} \\bar{d}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['58'] = '$L^{i} \\bar{e}^{\\dagger} \\tilde{Q}^{j} \\bar{u} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['59a'] = '$L^{i} \\bar{e}^{\\dagger} Q^{j} \\bar{u}^{\\dagger} \\bar{d} \\bar{d} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['59b'] = '$\\mathcal{O}_{19} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['59c'] = '$\\mathcal{O}_{8} \\cdot Q^i \\bar{d} \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['60a'] = '$L^{i} \\bar{e}^{\\dagger} \\tilde{Q}^{j} \\bar{u}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i l} \\epsilon_{j k}$'
    operator_latex['60b'] = '$\\mathcal{O}_8 \\cdot \\tilde{Q}^i \\bar{u}^\\dagger \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['60c'] = '$\\mathcal{O}_{20} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['61a'] = '$\\mathcal{O}_1 \\cdot L^i \\bar{e} \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['61b'] = '$\\mathcal{O}_2 \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['62a'] = '$L^{i} L^{j} L^{k} L^{l} \\bar{e} \\bar{e} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['62b'] = '$\\mathcal{O}_9 \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['63a'] = '$L^{i} L^{j} L^{k} \\bar{e} Q^{l} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j n} \\epsilon_{l m}$'
    operator_latex['63b'] = '$L^{i} L^{j} L^{k} \\bar{e} Q^{l} \\bar{d} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['63c'] = '$\\mathcal{O}_2 \\cdot Q^i \\bar{d} \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['63d'] = '$\\mathcal{O}_{10} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['64a'] = '$L^{i} L^{j} L^{k} \\bar{e} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['64b'] = '$L^{i} L^{j} L^{k} \\bar{e} \\tilde{Q}^{l} \\bar{u}^{\\dagger} H^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j n} \\epsilon_{l m}$'
    operator_latex['64c'] = '$\\mathcal{O}_2 \\cdot \\tilde{Q}^i \\bar{u}^\\dagger \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['64d'] = '$\\mathcal{O}_{13} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['65a'] = '$L^{i} L^{j} \\bar{e} \\bar{e}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['65b'] = '$\\mathcal{O}_{16} \\cdot H^i \\tilde{H}^j \\cdot \\epsilon_{ij}$'
    operator_latex['71'] = '$\\mathcal{O}_1 \\cdot Q^{i} \\bar{u} H^{j} \\cdot  \\epsilon_{i j}$'
    operator_latex['75'] = '$\\mathcal{O}_8 \\cdot Q^{i} \\bar{u} H^j \\cdot \\epsilon_{i j}$'
    operator_latex['76'] = '$\\bar{e}^\\dagger \\bar{e}^\\dagger \\bar{u}^\\dagger \\bar{u}^\\dagger \\bar{d} \\bar{d}$'
    operator_latex['77'] = '$\\mathcal{O}_{1} \\cdot \\tilde{L}^{i} \\bar{e}^{\\dagger} H^{j} \\cdot \\epsilon_{ij}$'
    operator_latex['78'] = '$\\mathcal{O}_{1} \\cdot \\tilde{Q}^{i} \\bar{d}^{\\dagger} H^{j} \\cdot \\epsilon_{ij}$'
    operator_latex['1p'] = '$\\mathcal{O}_{1} \\cdot \\tilde{H}^{i} H^{j} \\cdot \\epsilon_{ij}$'
    operator_latex['8p'] = '$\\mathcal{O}_{8} \\cdot \\tilde{H}^{i} H^{j} \\cdot \\epsilon_{ij}$'
    operator_latex['1pp'] = '$\\mathcal{O}_{1} \\cdot\\tilde{H}^{i} H^{j} \\tilde{H}^{k} H^{l} \\cdot \\epsilon_{ij} \\epsilon_{kl}$'
    operator_latex['1ppp'] = '$\\mathcal{O}_{1} \\cdot \\tilde{H}^{i} H^{j} \\tilde{H}^{k} H^{l} \\tilde{H}^{m} H^{n} \\cdot \\epsilon_{ij} \\epsilon_{kl} \\epsilon_{mn}$'
    operator_latex['7p'] = '$\\mathcal{O}_{7} \\cdot \\tilde{H}^{i} H^{j} \\cdot \\epsilon_{ij}$'
    operator_latex['8pp'] = '$\\mathcal{O}_{8} \\cdot \\tilde{H}^{i} H^{j} \\tilde{H}^{k} H^{l} \\cdot \\epsilon_{ij} \\epsilon_{kl}$'
    operator_latex['71p'] = '$\\mathcal{O}_{71} \\cdot \\tilde{H}^{i} H^{j}  \\cdot \\epsilon_{ij}$'
    operator_latex['76p'] = '$\\mathcal{O}_{76} \\cdot \\tilde{H}^{i} H^{j}  \\cdot \\epsilon_{ij}$'
    operator_latex['77p'] = '$\\mathcal{O}_{77} \\cdot \\tilde{H}^{i} H^{j}  \\cdot \\epsilon_{ij}$'
    operator_latex['78p'] = '$\\mathcal{O}_{78} \\cdot \\tilde{H}^{i} H^{j}  \\cdot \\epsilon_{ij}$'
    operator_latex['79a'] = '$\\mathcal{O}_{61a} \\cdot \\tilde{H}^{i} H^{j}  \\cdot \\epsilon_{ij}$'
    operator_latex['79b'] = '$\\mathcal{O}_{2} \\cdot \\tilde{H}^{i} H^{j}  \\tilde{H}^{k} H^{l} \\cdot \\epsilon_{ij} \\epsilon_{kl}$'
    operator_latex['80a'] = '$\\mathcal{O}_{5a} \\cdot \\tilde{H}^{i} H^{j}  \\cdot \\epsilon_{ij}$'
    operator_latex['80b'] = '$\\mathcal{O}_{5b} \\cdot \\tilde{H}^{i} H^{j}  \\cdot \\epsilon_{ij}$'
    operator_latex['80c'] = '$\\mathcal{O}_{3a} \\cdot \\tilde{H}^{i} H^{j}  \\tilde{H}^{k} H^{l} \\cdot \\epsilon_{ij} \\epsilon_{kl}$'
    operator_latex['80d'] = '$\\mathcal{O}_{3b} \\cdot \\tilde{H}^{i} H^{j}  \\tilde{H}^{k} H^{l} \\cdot \\epsilon_{ij} \\epsilon_{kl}$'
    operator_latex['81a'] = '$\\mathcal{O}_{6a} \\cdot \\tilde{H}^{i} H^{j} \\cdot \\epsilon_{ij}$'
    operator_latex['81b'] = '$\\mathcal{O}_{6b} \\cdot \\tilde{H}^{i} H^{j} \\cdot \\epsilon_{ij}$'
    operator_latex['81c'] = '$\\mathcal{O}_{4a} \\cdot \\tilde{H}^{i} H^{j}  \\tilde{H}^{k} H^{l} \\cdot \\epsilon_{ij} \\epsilon_{kl}$'
    operator_latex['81d'] = '$\\mathcal{O}_{4b} \\cdot \\tilde{H}^{i} H^{j}  \\tilde{H}^{k} H^{l} \\cdot \\epsilon_{ij} \\epsilon_{kl}$'
    operator_latex['82'] = '$L^{i} \\tilde{L}^{j} \\bar{e}^{\\dagger} \\bar{e}^{\\dagger} \\bar{u}^{\\dagger} \\bar{d} H^{k} H^{l} \\cdot \\epsilon_{ik} \\epsilon_{jl}$'
    operator_latex['D1'] = '$(DL)^{i} L^{j} {\\bar{u}^{\\dagger}} \\bar{d}  \\cdot  \\epsilon_{i j}$'
    operator_latex['D2a'] = '$(DL)^{i} L^{j} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D2b'] = '$(DL)^{i} L^{j} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i l} \\epsilon_{j k}$'
    operator_latex['D2c'] = '$(DL)^{i} L^{j} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D3'] = '$L^{i} {\\bar{e}^{\\dagger}} H^{j} H^{k} (DH)^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D4a'] = '$L^{i} L^{j} (DL)^{k} (D\\bar{e}) H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D4b'] = '$L^{i} L^{j} (DL)^{k} (D\\bar{e}) H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D5a'] = '$L^{i} L^{j} (DL)^{k} \\tilde{L}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['D5b'] = '$L^{i} L^{j} (DL)^{k} \\tilde{L}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['D5c'] = '$L^{i} L^{j} (DL)^{k} \\tilde{L}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i j} \\epsilon_{k m} \\epsilon_{l n}$'
    operator_latex['D5d'] = '$L^{i} L^{j} (DL)^{k} \\tilde{L}^{l} H^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['D6a'] = '$L^{i} L^{j} \\bar{e} {\\bar{e}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D6b'] = '$L^{i} L^{j} \\bar{e} {\\bar{e}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D7a'] = '$(DL)^{i} L^{j} Q^{k} (D\\bar{d}) H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D7b'] = '$(DL)^{i} L^{j} Q^{k} (D\\bar{d}) H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D7c'] = '$(DL)^{i} L^{j} Q^{k} (D\\bar{d}) H^{l}  \\cdot  \\epsilon_{i l} \\epsilon_{j k}$'
    operator_latex['D8a'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i n} \\epsilon_{j k} \\epsilon_{l m}$'
    operator_latex['D8b'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i n} \\epsilon_{j l} \\epsilon_{k m}$'
    operator_latex['D8c'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j l} \\epsilon_{m n}$'
    operator_latex['D8d'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j k} \\epsilon_{l n}$'
    operator_latex['D8e'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j l} \\epsilon_{k n}$'
    operator_latex['D8f'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j n} \\epsilon_{k l}$'
    operator_latex['D8g'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i j} \\epsilon_{k m} \\epsilon_{l n}$'
    operator_latex['D8h'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i j} \\epsilon_{k n} \\epsilon_{l m}$'
    operator_latex['D8i'] = '$L^{i} L^{j} Q^{k} \\tilde{Q}^{l} (DH)^{m} H^{n}  \\cdot  \\epsilon_{i j} \\epsilon_{k l} \\epsilon_{m n}$'
    operator_latex['D9a'] = '$L^{i} L^{j} \\bar{d} {\\bar{d}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D9b'] = '$L^{i} L^{j} \\bar{d} {\\bar{d}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D10a'] = '$(DL)^{i} L^{j} {\\bar{u}^{\\dagger}} \\bar{d} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i l} \\epsilon_{j k}$'
    operator_latex['D10b'] = '$(DL)^{i} L^{j} {\\bar{u}^{\\dagger}} \\bar{d} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D10c'] = '$(DL)^{i} L^{j} {\\bar{u}^{\\dagger}} \\bar{d} H^{k} \\tilde{H}^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D11'] = '$(DL)^{i} L^{j} (D\\bar{u}^{\\dagger}) (D\\bar{d})  \\cdot  \\epsilon_{i j}$'
    operator_latex['D12a'] = '$L^{i} L^{j} \\bar{u} {\\bar{u}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D12b'] = '$L^{i} L^{j} \\bar{u} {\\bar{u}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D13a'] = '$(DL)^{i} L^{j} \\tilde{Q}^{k} (D{\\bar{u}^{\\dagger}}) H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D13b'] = '$(DL)^{i} L^{j} \\tilde{Q}^{k} (D{\\bar{u}^{\\dagger}}) H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D14a'] = '$L^{i} {\\bar{e}^{\\dagger}} Q^{j} \\bar{d} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D14b'] = '$L^{i} {\\bar{e}^{\\dagger}} Q^{j} \\bar{d} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i l} \\epsilon_{j k}$'
    operator_latex['D14c'] = '$L^{i} {\\bar{e}^{\\dagger}} Q^{j} \\bar{d} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D15'] = '$(DL)^{i} {\\bar{e}^{\\dagger}} (D \\bar{u}^{\\dagger}) \\bar{d} H^{j}  \\cdot  \\epsilon_{i j}$'
    operator_latex['D16a'] = '$L^{i} {\\bar{e}^{\\dagger}} \\tilde{Q}^{j} {\\bar{u}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D16b'] = '$L^{i} {\\bar{e}^{\\dagger}} \\tilde{Q}^{j} {\\bar{u}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i l} \\epsilon_{j k}$'
    operator_latex['D16c'] = '$L^{i} {\\bar{e}^{\\dagger}} \\tilde{Q}^{j} {\\bar{u}^{\\dagger}} (DH)^{k} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D17'] = '${\\bar{e}^{\\dagger}} {\\bar{e}^{\\dagger}} {\\bar{u}^{\\dagger}} \\bar{d} (DH)^{i} H^{j}  \\cdot  \\epsilon_{i j}$'
    operator_latex['D18a'] = '$(DL)^{i} L^{j} H^{k} H^{l} (DH)^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j m} \\epsilon_{l n}$'
    operator_latex['D18b'] = '$(DL)^{i} L^{j} H^{k} H^{l} (DH)^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i k} \\epsilon_{j l} \\epsilon_{m n}$'
    operator_latex['D18c'] = '$(DL)^{i} L^{j} H^{k} H^{l} (DH)^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i m} \\epsilon_{j l} \\epsilon_{k n}$'
    operator_latex['D18d'] = '$(DL)^{i} L^{j} H^{k} H^{l} (DH)^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i j} \\epsilon_{k m} \\epsilon_{l n}$'
    operator_latex['D18e'] = '$(DL)^{i} L^{j} H^{k} H^{l} (DH)^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i n} \\epsilon_{j l} \\epsilon_{k m}$'
    operator_latex['D18f'] = '$(DL)^{i} L^{j} H^{k} H^{l} (DH)^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j n} \\epsilon_{k m}$'
    operator_latex['D19a'] = '$(DL)^{i} L^{j} (D^{3} H)^{k} H^{l}  \\cdot  \\epsilon_{i j} \\epsilon_{k l}$'
    operator_latex['D19b'] = '$(DL)^{i} L^{j} (D^{3} H)^{k} H^{l}  \\cdot  \\epsilon_{i l} \\epsilon_{j k}$'
    operator_latex['D19c'] = '$(DL)^{i} L^{j} (D^{3} H)^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D20'] = '$L^{i} {\\bar{e}^{\\dagger}} H^{j} H^{k} H^{l} (DH)^{m} \\tilde{H}^{n}  \\cdot  \\epsilon_{i l} \\epsilon_{j m} \\epsilon_{k n}$'
    operator_latex['D21'] = '$(DL)^{i} (D\\bar{e}^{\\dagger}) H^{j} H^{k} (DH)^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    operator_latex['D22'] = '${\\bar{e}^{\\dagger}} {\\bar{e}^{\\dagger}} (DH)^{i} (DH)^{j} H^{k} H^{l}  \\cdot  \\epsilon_{i k} \\epsilon_{j l}$'
    models_dict = pickle.load(open(os.path.join(os.path.dirname(__file__), 'models.p'), 'rb'))
    op_labels = set(models_dict.keys())
    filtered_dict = Counter(list(MVDF['op']))
    for k, v in models_dict.items():
        if k not in filtered_dict:
            filtered_dict[k] = 0
    models_dict = {k: str(v) for k, v in models_dict.items()}
    filtered_dict = {k: str(v) for k, v in filtered_dict.items()}
    for label, latex in operator_latex.items():
        if label in EFF_OPERATORS:
            op = EFF_OPERATORS[label]
        elif label in DERIV_EFF_OPERATORS:
            op = DERIV_EFF_OPERATORS[label]
        loops, scale = table_data(op)
        if label not in op_labels:
            models, filtered = ('', '')
        else:
            models = models_dict[label]
            filtered = filtered_dict[label]
        row = f'${format_primes(label)}$ & {latex} & {models} & {filtered} & {loops} & {scale} \\\\'
        print(row)

def format_primes(string):
    if string.endswith('ppp'):
        return string[:-3] + '^{\\prime\\prime\\prime}'
    if string.endswith('pp'):
        return string[:-2] + '^{\\prime\\prime}'
    if string.endswith('p'):
        return string[:-1] + '^{\\prime}'
    return string
