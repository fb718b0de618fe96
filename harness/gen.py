"""Fills the shapes enumerated by spec/UffShapes.tla with values (seeded)."""
import random
import struct

import numpy as np

TEXTS = ['', 'NONE', '-1', 'x    -1', 'abc', 'Pump 3 / run 12', '1 2 3', '2412', '58b', '%d %s %%', '{0} {}', 'a  b   c',
         'Größe µm²', 'Жук 漢字', "it's \"quoted\"", 'back\\slash', '1.5e+10', '-1 -1', 'None', 'tab?', '#*!', '0']
REALS = [0., -0., 1., -1., .1, -.1, 9.999995, 9.9999949, 9.9999951, -9.999995, .5, 1.e-98, -1e-98, 9.99998e98, -9.99998e98, 123456.5,
         123455.5, 1.0000005, 2. / 3, 1e5, 1e-5, 999999.5, 1e-10, 6.02214076e23, -1.380649e-23, 3.14159265358979, 1e16, 0.30000000000000004,
         9.99999999995, 9.99999999999949, 1234567890.12345, 5e-7, 100., -100., 7.]
TAGS = ['\n    -1\n', '\r\n    -1\r\n', '    -1\n    -1\n', '    -1\n    58', '\n    -1', '    -1\r', '\n    -1\n    15\n']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.adv = False        # many values that look like delimiters
        self.plain = False      # nothing a writer computes, no rows of zeros, Python's own numbers
        self.few = False        # values of at most 5 digits, all fields (for files rendered by the specification)
        self.deep = False       # exponents of three digits

    # ---- values
    def int(self, w=10, full=False, lo=None):
        """an integer for w columns; full: it may take all of them"""
        d = w if full else w - 1
        hi = 10 ** d - 1
        mn = -(10 ** (d - 1) - 1)
        p = self.r.random()
        if self.adv and lo is None and p < .8:
            return -1
        if lo is not None:
            return self.r.choice([lo, lo + 1, hi]) if p < .3 else self.r.randint(lo, min(hi, lo + 10 ** self.r.randint(1, d) - 2))
        if p < .2:
            return -1
        if p < .45:
            return self.r.choice([0, 1, hi, mn, -10, 9, 99])if d > 2 else self.r.choice([0, 1, hi])
        k = self.r.randint(1, d)
        v = self.r.randint(0, 10 ** k - 1)
        return v if self.r.random() < .8 or k == d else -v

    def real(self):
        if self.few:
            v = self.r.choice([0., 1., -1., .5, -2.5e-10, 9.9999e98, -1e-98, 123.45, 1e5]) if self.flag(.4) else \
                self.r.randint(-99999, 99999) * 10. ** self.r.randint(-20, 20)
            return float('%.4e' % v)
        p = self.r.random()
        if self.deep and p < .03:
            # exponents of three digits
            return float('%.15e' % (self.r.choice([1., self.r.uniform(1, 9.99)]) * 10. ** (self.r.choice([-1, 1]) * self.r.randint(100, 290)))) \
                * self.r.choice([-1, 1])
        if p < .5:
            return self.r.choice(REALS)
        if p < .6:
            return float(self.r.randint(-1000, 1000))
        v = self.r.uniform(-1, 1) * 10. ** self.r.randint(-30, 30) if p < .9 else self.r.uniform(-1, 1) * 10. ** self.r.randint(-97, 98)
        return v if abs(v) > 1e-98 else 0.

    def bits(self, single=False):
        """a finite value for binary data"""
        p = self.r.random()
        if p < .4:
            return self.real()
        if p < .5:
            return self.r.choice([5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 3.4028234663852886e38, 1e39, -1e300,
                                  1.1754943508222875e-38, 1e-45, 2.5e-46, 16777217., -0.])
        while True:
            if p < .7:
                t = self.r.choice(TAGS).encode()
                b = (t + bytes(self.r.randrange(256) for _ in range(8)))[:8] if self.r.random() < .7 \
                    else (bytes([self.r.randrange(32, 127)]) + t)[:8].ljust(8, b' ')
            else:
                b = bytes(self.r.randrange(256) for _ in range(8))
            v = struct.unpack('<d', b)[0]
            if v == v and abs(v) != float('inf'):
                return v
            p = 1.

    def text(self, w=80):
        p = self.r.random()
        if self.few and p < .08:
            return 'caf\ufffd' if w > 3 else '\ufffd'
        if self.adv and w >= 8 and p < .6:
            return 'y' * (w - 6) + '    -1' if p < .4 else 'z    -1'
        if p < .6:
            return self.r.choice([t for t in TEXTS if len(t) <= w])
        if p < .7 and w >= 8:
            return 'y' * (w - 6) + '    -1'
        n = w if p < .8 else self.r.randint(1, w)
        return ''.join(self.r.choice('abcXYZ019 .-_/:%' if 0 < i < n - 1 else 'abcXYZ019') for i in range(n))

    def choice(self, s):
        return self.r.choice(list(s))

    def flag(self, p=.5):
        return self.r.random() < p

    # ---- containers
    def seq(self, n, one, step=1):
        """n values: independent, all the same, all zero, in a row"""
        p = self.r.random()
        if n > 20 and not self.adv and p > .6:
            # in an order, in reverse, without an order, different ones
            k = list(range(1, n + 1))
            p = self.r.random()
            if p > .6:
                self.r.shuffle(k)
            return [step * i for i in (k if p > .3 else k[::-1])]
        if p > .25 or self.adv:
            return [one() for _ in range(n)]
        if p > .15:
            return [one()] * n
        if p > .1:
            return [step * 0] * n
        a = self.r.choice([1, 1, 100, 5])
        k = list(range(a, a + n))
        return [step * i for i in (k if p > .05 else k[::-1])]

    def arr(self, v, dt=None):
        """list or array"""
        return list(v) if self.flag(.3) else self.form(np.array(v, dt))

    def form(self, a):
        """the same numbers held by other kinds of arrays (single precision rounds them first)"""
        p = self.r.random()
        if self.few or p > .4 or a.size == 0:
            return a
        if p > .3:
            b = np.zeros(tuple(2 * k for k in a.shape), a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
            b[...] = a
            return b
        if p > .22:
            return a.astype(a.dtype.newbyteorder('>'))
        if p > .14:
            a = a.copy()
            a.flags.writeable = False
            return a
        if p > .07:
            return a[::-1].copy()[::-1]
        if a.dtype.kind == 'i':
            return a.astype('i4') if np.abs(a).max() < 2 ** 31 else a
        with np.errstate(all='ignore'):
            b = a.astype('f4' if a.dtype.kind == 'f' else 'c8')
        ok = np.isfinite(b) & ((np.abs(b.real) > 1e-30) | (b.real == 0)) & ((np.abs(b.imag) > 1e-30) | (b.imag == 0))
        return b if ok.all() else a

    def ints(self, n, w=10, full=False, lo=None):
        return self.arr(self.seq(n, lambda: self.int(w, full, lo), 1) if lo is None else [self.int(w, full, lo) for _ in range(n)], int)

    def reals(self, n):
        return self.arr(self.seq(n, self.real, .5), float)

    def cvals(self, n, one):
        """complex values; the imaginary or the real parts may all be zero"""
        p = self.r.random()
        re, im = self.seq(n, one, .5), self.seq(n, one, -.25)
        a = np.zeros(n, complex)
        if p > .05:
            a.real = re
        if p < .9 or self.adv:
            a.imag = im
        return a

    def cplx(self, n, six=False):
        return self.form(self.cvals(n, self.real))

    # ---- data-sets
    def make(self, sh, opt='rand'):
        """data-set for a shape; opt: which optional fields ('all', 'none', 'rand')"""
        # the types that are read column by column, or whose columns are wide enough
        self.deep = sh['t'] in ('55', '58', '164', '1858', '2411', '2420')
        try:
            d = getattr(self, 'd' + sh['t'])(sh)
        finally:
            self.deep = False
        o = d.pop('$opt', [])
        if opt != 'all':
            for k in o:
                if k in d and (opt == 'none' or self.flag()):
                    del d[k]
        if not self.few and not self.plain:
            if self.flag(.12):
                self.rest(d)
            if self.flag(.25):
                self.stale(d)
            if self.flag(.1):
                self.scalars(d)
        return d

    def rest(self, d):
        """everything is zero at one node (system, element, point)"""
        keys = [k for k in ('x', 'y', 'z', 'ref_o', 'x_point', 'xz_point', 'data', 'data_at_node', 'data_at_element', 'CS_matrices') +
                tuple('r%d' % i for i in range(1, 7)) if k in d and (k != 'x' or d['type'] != 58)]
        n = min([len(d[k]) for k in keys] or [0])
        if n == 0:
            return
        i = self.r.randrange(n)
        for k in keys:
            d[k] = v = d[k].copy()
            if isinstance(v, np.ndarray):
                v.flags.writeable = True
            v[i] = 0 * np.asarray(v[i]) if isinstance(v, np.ndarray) or k in ('data_at_node', 'data_at_element', 'CS_matrices') else \
                [0.] * 3 if isinstance(v[i], list) else 0 * v[i]

    def stale(self, d):
        """what the writer computes itself is already there, as after a reading, and wrong by now"""
        t = d['type']
        if t == 58:
            new = {'abscissa_min': self.real(), 'abscissa_inc': self.choice([0., 2., -1.25]), 'num_pts': self.r.randint(0, 99), 'n_bytes': self.r.randint(0, 999),
                   'byte_ordering': self.choice([1, 2]), 'fp_format': 2, 'n_ascii_lines': 11}
        elif t == 82:
            new = {'n_nodes': self.int(lo=0)}
        elif t == 55:
            new = {'data_type': self.choice([2, 5]), 'n_data_per_node': self.choice([3, 6])}
        elif t == 2414 and 'data_at_element' in d:
            new = {'NDVAL': np.array([self.r.randint(0, 9) for _ in d['data_at_element']], int)}
        elif t in (2429, 2467):
            for g in d['groups']:
                if self.flag():
                    g['number_of_entities_in_group'] = self.int(lo=0)
            return
        else:
            return
        for k, v in new.items():
            if self.flag():
                d[k] = v

    def scalars(self, d):
        """numbers as numpy holds them"""
        for k, v in d.items():
            if k in ('type', 'func_type', 'binary') or not self.flag(.7):
                continue
            if type(v) is int:
                d[k] = np.int64(v)
            elif type(v) is float:
                d[k] = np.float64(v)

    def fd(self, sh):
        return bool(sh.get('fd', True))

    def ids(self, d, n=5):
        for i in range(1, n + 1):
            d['id%d' % i] = self.text(80)
        return ['id%d' % i for i in range(1, n + 1)]

    def d15(self, sh):
        n = sh['n']
        return {'type': 15, 'node_nums': self.ints(n), 'def_cs': self.ints(n), 'disp_cs': self.ints(n), 'color': self.ints(n),
                'x': self.reals(n), 'y': self.reals(n), 'z': self.reals(n), '$opt': ['def_cs', 'disp_cs', 'color']}

    def d18(self, sh):
        n = sh['n']

        def pts():
            return self.arr([[self.real() for _ in range(3)] for _ in range(n)], float)
        return {'type': 18, 'cs_num': self.ints(n), 'cs_type': self.ints(n), 'ref_cs_num': self.ints(n), 'color': self.ints(n),
                'method': self.ints(n), 'cs_name': [self.text(40) for _ in range(n)], 'ref_o': pts(), 'x_point': pts(), 'xz_point': pts(),
                '$opt': ['cs_type', 'color', 'method', 'cs_name']}

    def d55(self, sh):
        n, an = sh['n'], sh['an']
        d = {'type': 55, 'analysis_type': an}
        o = self.ids(d) + ['model_type']
        for k in ('model_type', 'data_ch', 'spec_data_type', 'load_case'):
            d[k] = self.int(10, True)
        d['node_nums'] = self.ints(n)
        if an == 5:
            d['freq_step_n'] = self.int(10, True)
            d['freq'] = self.real()
        else:
            d['mode_n'] = self.int(10, True)
        if an == 2:
            d['freq'] = self.real()
            for k in ('modal_m', 'modal_damp_vis', 'modal_damp_his'):
                d[k] = self.real()
                o.append(k)
        if an in (3, 7):
            d['eig'] = complex(self.real(), self.real()) if self.flag(.9) else np.complex128(complex(self.real(), self.real()))
            for k in ('modal_a', 'modal_b'):
                d[k] = complex(self.real(), self.real()) if self.flag(.8) else self.real()
                o.append(k)
        for k in range(1, 7 if sh['six'] else 4):
            d['r%d' % k] = self.cplx(n) if sh['c'] else self.form(np.array(self.seq(n, self.real, .5), float))
            if n and not self.few and self.flag(.06):
                d['r%d' % k] = list(d['r%d' % k])
        d['$opt'] = o
        return d

    def d58(self, sh):
        n = sh['n']
        b = sh['bin']
        d = {'type': 58, 'binary': int(b), 'func_type': self.choice([0, 1, 2, 3, 4, 6, 9]), 'abscissa_spacing': int(sh['even']),
             'orddenom_spec_data_type': self.int(10, True)}
        o = self.ids(d) + ([] if b else ['binary']) + ([] if sh['even'] else ['abscissa_spacing'])
        for k, w in (('func_id', 10), ('ver_num', 5), ('load_case_id', 10), ('rsp_node', 10), ('rsp_dir', 4), ('ref_node', 10), ('ref_dir', 4)):
            d[k] = self.int(w, True)
        o += ['func_id', 'ver_num', 'load_case_id', 'rsp_ent_name', 'ref_ent_name', 'z_axis_value']
        d['rsp_ent_name'], d['ref_ent_name'] = self.text(10), self.text(10)
        for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
            for k in ('len', 'force', 'temp'):
                d['%s_%s_unit_exp' % (a, k)] = self.int(5, True)
                o.append('%s_%s_unit_exp' % (a, k))
            for k in ('_axis_lab', '_axis_units_lab'):
                d[a + k] = self.text(20)
                o.append(a + k)
            if a != 'orddenom':
                d[a + '_spec_data_type'] = self.int(10, True)
                o.append(a + '_spec_data_type')
        d['z_axis_value'] = self.real()
        val = (lambda: self.bits(not sh['fd'])) if b else self.real
        if sh['even']:
            x0 = self.choice([0., 1., -5., .5, 10.25, 100.])
            dx = self.choice([1., .5, .25, 2.5, .125, -.5] if self.few else [1., .5, .1, .001, 2.5, 1. / 3, 1e-4, -1., -.1, -.25])
            d['x'] = x0 + dx * np.arange(n)
        else:
            d['x'] = self.form(np.array(self.seq(n, val, .5), float))
        if sh['c']:
            d['data'] = self.form(self.cvals(n, val))
        else:
            d['data'] = self.form(np.array(self.seq(n, val, .5), float))
        if not self.few and self.flag(.08):
            # whole numbers, lists
            v = [self.r.randint(-9999, 9999) for _ in range(n)]
            d['data'] = np.array(v) * (1 + 1j) if sh['c'] else np.array(v)
        if not self.few and self.flag(.08):
            k = self.choice(['x', 'data'])
            d[k] = list(d[k])
        if sh['req']:
            d['ord_data_type'] = sh['req']
        elif self.flag():
            d['ord_data_type'] = self.choice([2, 4, 5, 6])
        if not self.few and self.flag(.1):
            d['binary'], d['abscissa_spacing'] = bool(d['binary']), bool(d['abscissa_spacing'])
        d['$opt'] = o
        return d

    def d82(self, sh):
        n = sh['n']
        return {'type': 82, 'trace_num': self.int(10, True), 'color': self.int(10, True), 'id': self.text(80),
                'nodes': self.arr([self.choice([0, 0, 1, 2, 5, -1, 999999999]) if self.flag(.5) else self.int() for _ in range(n)], int),
                '$opt': ['id', 'color']}

    def d151(self, sh):
        d = {'type': 151}
        for k in ('model_name', 'description', 'db_app', 'program'):
            d[k] = self.text(80)
        o = []
        for k in ('created', 'saved', 'file'):
            n = ('date_db_%s', 'time_db_%s') if k != 'file' else ('date_file_written', 'time_file_written')
            for m in n:
                m = m % k if '%' in m else m
                d[m] = self.choice(['02-Feb-24', '31-Dec-99', '', '2024-02-29']) if 'date' in m else self.choice(['12:00:00', '23:59:59', ''])
                o.append(m)
        if not self.few and self.flag(.3):
            for m in ('date', 'time'):
                if self.flag(.7):
                    d[m + '_db_written'] = {'date': '07-Jul-77', 'time': '07:07:07'}[m]
        for k in ('version_db1', 'version_db2', 'file_type'):
            v = self.int(10)
            d[k] = v if self.flag() else str(v)
            o.append(k)
        d['$opt'] = o
        return d

    def d164(self, sh):
        return {'type': 164, 'units_code': self.int(10, True), 'units_description': self.text(20), 'temp_mode': self.int(10, True),
                'length': self.real(), 'force': self.real(), 'temp': self.real(), 'temp_offset': self.real(),
                '$opt': ['units_description', 'temp_mode']}

    def d1858(self, sh):
        d = {'type': 1858}
        for k in ('record_num', 'octave_format', 'measurement_run'):
            d[k] = self.int(12, True)
        for k in ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
                  'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier',
                  'sampling_type'):
            d[k] = self.int(6, True)
        for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2', 'user_value_3',
                  'user_value_4', 'exponential_window_damping_factor'):
            d[k] = self.real()
        for k in ('response_direction', 'reference_direction'):
            d[k] = self.choice(['', '+X', '-Y', 'NONE', '1', 'S', '+RZ', 'µ'])
        return d

    def d2400(self, sh):
        d = {'type': 2400}
        for k, w in (('model_uid', 12), ('entity_type', 6), ('entity_subtype', 6), ('version_number', 12), ('idm_version_id', 12),
                     ('idm_item_id', 12), ('primary_parent_uid', 12), ('optimization_switches', 12)):
            d[k] = self.int(w, True)
        d['entity_name'], d['part_number'] = self.text(80), self.text(80)
        d['status_mask'] = [self.choice([0, 1, 9, 10, 99, -1]) for _ in range(32)]
        d['date'] = self.choice(['', '01-Jan-00', '2024-12-31'])
        d['time'] = self.choice(['', '00:00:00', '23:59:59'])
        d['$opt'] = [k for k in d if k != 'type']
        return d

    def d2411(self, sh):
        n = sh['n']
        return {'type': 2411, 'node_nums': self.ints(n), 'def_cs': self.ints(n), 'disp_cs': self.ints(n), 'color': self.ints(n),
                'x': self.reals(n), 'y': self.reals(n), 'z': self.reals(n)}

    def d2412(self, sh):
        d = {'type': 2412}
        if sh['legacy']:
            for desc, nn in sh['el']:
                name = 'triangle' if desc == 41 else 'quad'
                L = d.setdefault(name, {k: [] for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums')})
                L['element_nums'].append(self.int())
                L['fe_descriptor'].append(desc)
                for k in ('phys_table', 'mat_table', 'color'):
                    L[k].append(self.int())
                L['num_nodes'].append(nn)
                L['nodes_nums'].append([self.int(lo=self.choice([0, 1])) for _ in range(nn)])
            return d
        for desc, nn in sh['el']:
            e = {'element_nums': self.int(), 'fe_descriptor': desc, 'phys_table': self.int(), 'mat_table': self.int(), 'color': self.int(),
                 'num_nodes': nn, 'nodes_nums': self.ints(nn, lo=self.choice([0, 1]))}
            if desc in (11, 21, 22, 23, 24):
                e.update({k: self.int() for k in ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')})
            d.setdefault(desc, []).append(e)
        return d

    def d2414(self, sh):
        an, loc, n, m = sh['an'], sh['loc'], sh['n'], sh['m']
        d = {'type': 2414, 'analysis_type': an, 'dataset_location': loc, 'number_of_data_values_for_the_data_component': m,
             'analysis_dataset_label': self.int(10, True), 'analysis_dataset_name': self.text(80)}
        self.ids(d)
        for k in ('model_type', 'data_characteristic', 'result_type', 'data_type'):
            d[k] = self.int(10, True)
        o = []
        if an == 5:
            d['data_type'] = 5
            for k in ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number',
                      'time_step_number', 'frequency_number', 'creation_option', 'number_retained'):
                d[k] = self.int(10, True)
            for k in ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping', 'real_part_eigenvalue',
                      'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass',
                      'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass'):
                d[k] = self.real()
            d['node_nums'] = self.form(np.array(self.seq(n, self.int), int))
            for k in 'xyz'[:m]:
                d[k] = self.cplx(n)
        else:
            for r, c, f in ((10, 8, 0), (11, 8, 0), (12, 6, 1), (13, 6, 1)):
                for i in range(1, c + 1):
                    k = 'record%d_field%d' % (r, i)
                    d[k] = self.real() if f else self.int(10, True)
                    o.append(k)
            nv = sh['nv']

            def row(v):
                return np.array([self.real() for _ in range(v)], float)

            def cnt():
                return nv if self.flag(.6) else self.r.randint(1, max(1, nv))
            if loc == 1:
                d['node_nums'] = self.form(np.array(self.seq(n, self.int), int))
                d['data_at_node'] = [row(cnt()) for _ in range(n)]
            elif loc == 2:
                d['element_nums'] = self.form(np.array(self.seq(n, self.int), int))
                d['data_at_element'] = [row(cnt()) for _ in range(n)]
            elif loc == 3:
                d['element_nums'] = self.form(np.array(self.seq(n, self.int), int))
                x = [sh['iexp'] if i == 0 or self.flag() else self.choice([1, 2]) for i in range(n)]
                d['IEXP'] = np.array(x, int)
                d['number_of_nodes'] = np.array([self.r.randint(1, 4) for _ in range(n)], int)
                v = [nv if i == 0 else self.r.randint(1, 6) if self.flag(.8) else self.r.randint(7, 14) for i in range(n)]
                d['number_of_values_per_node'] = np.array(v, int)
                d['data_at_nodes_on_element'] = [[row(v[i]) for _ in range(d['number_of_nodes'][i] if x[i] == 1 else 1)] for i in range(n)]
                if self.flag():
                    # the values of a node line by line, as they are read
                    d['data_at_nodes_on_element'] = [[r[j:j + 6] for r in e for j in range(0, len(r), 6)] for e in d['data_at_nodes_on_element']]
        d['$opt'] = o
        return d

    def d2420(self, sh):
        n = sh['n']
        return {'type': 2420, 'Part_UID': self.int(10, True), 'Part_Name': self.text(80), 'CS_sys_labels': self.ints(n), 'CS_types': self.ints(n),
                'CS_colors': self.ints(n), 'CS_names': [self.text(80) for _ in range(n)],
                'CS_matrices': [np.array([[self.real() for _ in range(3)] for _ in range(4)], float) for _ in range(n)],
                '$opt': ['Part_UID', 'Part_Name'] + (['CS_types', 'CS_colors'] if n == 1 else [])}

    GRP = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
           'active_dof_set_no_for_group', 'active_temperature_set_no_for_group', 'active_contact_set_no_for_group')

    def group(self, t, n):
        g = {'group_number': self.int(), 'group_name': self.text(40)}
        for k in self.GRP:
            if self.few or self.flag(.7):
                g[k] = self.int()
        g['entity_type_code'], g['entity_tag'] = self.ints(n), self.ints(n)
        if t == '2467':
            g['entity_node_leaf_id'], g['entity_component_id'] = self.ints(n), self.ints(n)
        return g

    def d2429(self, sh):
        return {'type': 2429, 'groups': [self.group('2429', n) for n in sh['ent']]}

    def d2467(self, sh):
        return {'type': 2467, 'groups': [self.group('2467', n) for n in sh['ent']]}
