# Which simulator binaries decide which property.
# bins: (name, harness source, defines, share of the time budget)
P = ['-DPARALLEL']
CHECKS = {
 'C01': dict(bins=[('c01', 'gmc', P + ['-DPROP=1'], 1.0)]),
 'C02': dict(bins=[('c02', 'gmc', P + ['-DPROP=2'], 0.7), ('c02s', 'gmc', ['-DPROP=2'], 0.3)]),
 'C03': dict(bins=[('c03', 'gmc', P + ['-DPROP=3', '-DBIG=0.03'], 0.5), ('c03s', 'gmc', ['-DPROP=3', '-DBIG=0.03'], 0.5)]),
 'C04': dict(bins=[('c04', 'gmc', P + ['-DPROP=4', '-DBIG=0.02'], 0.5), ('c04s', 'gmc', ['-DPROP=4', '-DBIG=0.02'], 0.5)]),
 'C05': dict(bins=[('c05', 'uf', P, 1.0)]),
 'C06': dict(bins=[('c06', 'red', P + ['-DPROP=6'], 0.75), ('c06s', 'red', ['-DPROP=6'], 0.25)]),
 'C07': dict(bins=[('c07', 'red', P + ['-DPROP=7'], 0.7), ('c07s', 'red', ['-DPROP=7'], 0.3)]),
 'C08': dict(bins=[('c08', 'red', P + ['-DPROP=8'], 0.7), ('c08s', 'red', ['-DPROP=8'], 0.3)]),
 'C09': dict(bins=[('c09', 'mtc', ['-DPROP=9'], 1.0)]),
 'C10': dict(bins=[('c10', 'mtc', ['-DPROP=10'], 1.0)]),
 'C11': dict(bins=[('c11', 'mtc', ['-DPROP=11'], 1.0)]),
 'C12': dict(bins=[('c12', 'mtc', ['-DPROP=12'], 1.0)]),
 'C23': dict(bins=[('c23', 'mtc', ['-DPROP=23'], 1.0)]),
 'C13': dict(bins=[('c13', 'io', ['-DPROP=13', '-D_GLIBCXX_ASSERTIONS'], 1.0)]),
 'C14': dict(bins=[('c14', 'io', P + ['-DPROP=14'], 0.25), ('c14s', 'io', ['-DPROP=14'], 0.75)]),
 'C15': dict(bins=[('c15', 'dyn', P + ['-DPROP=15', '-fno-access-control'], 0.5), ('c15s', 'dyn', ['-DPROP=15', '-fno-access-control'], 0.5)]),
 'C16': dict(bins=[('c16', 'flow', ['-DPROP=16'], 1.0)]),
 'C17': dict(bins=[('c17s', 'gmc', ['-DPROP=17', '-DBIG=0.001'], 1.0)]),
 'C20': dict(bins=[('c20m', 'app', P + ['-DAPP=1', '-DLOGTEXT'], 0.2), ('c20ms', 'app', ['-DAPP=1', '-DLOGTEXT'], 0.2), ('c20t', 'app', ['-DAPP=2', '-DLOGTEXT'], 0.3),
                   ('c20d', 'app', P + ['-DAPP=3', '-DLOGTEXT'], 0.15), ('c20ds', 'app', ['-DAPP=3', '-DLOGTEXT'], 0.15)]),
 'C21': dict(bins=[('c21k', 'tool', ['-DAPP=1', '-DLOGTEXT'], 0.15), ('c21kp', 'tool', P + ['-DAPP=1', '-DLOGTEXT'], 0.15), ('c21l', 'tool', ['-DAPP=2', '-DLOGTEXT'], 0.14), ('c21t', 'tool', ['-DAPP=3', '-DLOGTEXT'], 0.14),
                   ('c21w', 'tool', ['-DAPP=4', '-DLOGTEXT'], 0.14), ('c21g', 'tool', ['-DAPP=5', '-DLOGTEXT'], 0.14), ('c21a', 'tool', ['-DAPP=6', '-DLOGTEXT'], 0.14)]),
 'C22': dict(bins=[('c22d', 'exper', ['-DAPP=1', '-DLOGTEXT'], 0.18), ('c22g', 'exper', ['-DAPP=2', '-DLOGTEXT'], 0.18), ('c22c', 'exper', ['-DAPP=3', '-DLOGTEXT'], 0.16), ('c22cp', 'exper', P + ['-DAPP=3', '-DLOGTEXT'], 0.16),
                   ('c22b', 'exper', ['-DAPP=4', '-DLOGTEXT'], 0.16), ('c22bp', 'exper', P + ['-DAPP=4', '-DLOGTEXT'], 0.16)]),
}
# seconds of search per check and runs at most, per tier
BUDGET = {'quick': (60, 900000), 'thorough': (600, 100000000)}
