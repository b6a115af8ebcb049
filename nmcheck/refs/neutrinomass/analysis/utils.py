import sympy as sym
import numpy as np
import functools as ft
pert_bound = np.sqrt(4.0 * np.pi)
GF = 1.16638e-05
ALPHA_EM = 1.0 / 127.0
mb = 4.18
THETA12 = np.deg2rad(33.82)
THETA23 = np.deg2rad(49.6)
THETA13 = np.deg2rad(8.61)
DELTA_CP = np.deg2rad(215.0)

class UnitaryMatrix(object):

    def __init__(self, c12=np.cos(THETA12), c13=np.cos(THETA13), c23=np.cos(THETA23), s12=np.sin(THETA12), s13=np.sin(THETA13), s23=np.sin(THETA23), δ_CP=DELTA_CP, α_1=0.0, α_2=0.0, symb=False):
        self.symb = symb
        if not symb:
            dtype = np.complex128
            matrix_1 = np.matrix([[1.0, 0.0, 0.0], [0.0, c23, s23], [0.0, -s23, c23]], dtype=dtype)
            matrix_2 = np.matrix([[c13, 0.0, s13 * np.exp(-1j * δ_CP)], [0.0, 1.0, 0.0], [-s13 * np.exp(1j * δ_CP), 0.0, c13]], dtype=dtype)
            matrix_3 = np.matrix([[c12, s12, 0.0], [-s12, c12, 0.0], [0.0, 0.0, 1.0]], dtype=dtype)
            matrix_p = np.matrix([[np.exp(1j * α_1), 0.0, 0.0], [0.0, np.exp(1j * α_2), 0.0], [0.0, 0.0, 1.0]], dtype=dtype)
        if symb:
            matrix_1 = sym.Matrix([[1.0, 0.0, 0.0], [0.0, c23, s23], [0.0, -s23, c23]])
            matrix_2 = sym.Matrix([[c13, 0.0, s13 * sym.exp(-1j * δ_CP)], [0.0, 1.0, 0.0], [-s13 * sym.exp(1j * δ_CP), 0.0, c13]])
            matrix_3 = sym.Matrix([[c12, s12, 0.0], [-s12, c12, 0.0], [0.0, 0.0, 1.0]])
            matrix_p = sym.Matrix([[sym.exp(1j * α_1), 0.0, 0.0], [0.0, sym.exp(1j * α_2), 0.0], [0.0, 0.0, 1.0]])
        if not symb:
            self.val = ft.reduce(np.dot, [matrix_1, matrix_2, matrix_3, matrix_p])
        else:
            self.val = ft.reduce(lambda x, y: x * y, [matrix_1, matrix_2, matrix_3, matrix_p])

    def cols(self):
        return self.val.T

    def get_dagger(self):
        return self.val.getH()
measured_mv_diffs = {'sol': np.sqrt(7.4e-05) * 1e-09, 'atm': np.sqrt(0.002494) * 1e-09}
NEUTRINO_MASSES = [0.0, measured_mv_diffs['sol'], measured_mv_diffs['atm']]
PMNS = UnitaryMatrix()
THETA12_CKM = np.deg2rad(13.04)
THETA13_CKM = np.deg2rad(0.201)
THETA23_CKM = np.deg2rad(2.38)
DELTA_CP_CKM = 1.2
CKM = UnitaryMatrix(c12=np.cos(THETA12_CKM), c13=np.cos(THETA13_CKM), c23=np.cos(THETA23_CKM), s12=np.sin(THETA12_CKM), s13=np.sin(THETA13_CKM), s23=np.sin(THETA23_CKM), δ_CP=DELTA_CP_CKM, α_1=0.0, α_2=0.0, symb=False).val
VEV = 246.0 / np.sqrt(2)
