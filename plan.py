"""What each property's check runs: design models, generated scenarios, trace specifications."""


def sized(module, wide=3, **kw):
    """trace job for a group whose name ends in _n<number of qubits>"""
    def job(group):
        n = int(group.rsplit('_n', 1)[1])
        return dict(module=module, const=dict(N=n), workers=8 if n >= wide else 2, **kw)
    return job


LAYERS = {r'layers_n\d': sized('TraceLayers')}
SAMPLER = [dict(module='Sampler', name='Sampler N=%d SU2=%s' % (n, su2),
                cfg='CONSTANT N = %d\nCONSTANT SU2 = %s\nSPECIFICATION Spec\nINVARIANTS TypeOK RoundOK NeverStuck\nPROPERTY PoolShrinks\nVIEW View\n' % (n, su2),
                **kw)
           for n, su2, kw in ((1, 'TRUE', {}), (2, 'TRUE', {}), (2, 'FALSE', {}), (3, 'TRUE', {}), (4, 'FALSE', {}),
                              (4, 'TRUE', dict(thorough_only=True)), (5, 'TRUE', dict(thorough_only=True)))]

PLAN = {p: dict(trace=LAYERS) for p in ('C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C18', 'C19')}
PLAN['C17'] = dict(trace=dict(LAYERS, **{r'sampler_n\d': sized('TraceSampler', wide=9)}), mc=SAMPLER)

EMBED = {r'embed_n\d': dict(module='TraceEmbed', workers=8)}
PLAN['C01'] = dict(trace=EMBED, gen=[dict(module='GenEmbed', name='embed', cfg='CONSTANT MAXN = 5\nSPECIFICATION Spec\nINVARIANT Distinct\nCHECK_DEADLOCK FALSE\n')])
PLAN['C03'] = dict(trace=EMBED)
PLAN['C02'] = dict(trace={r'circuit_n\d': sized('TraceCircuit')})

PAULI = {'pauli': dict(module='TracePauli', workers=8)}


def genpauli(kind, num, length):
    return dict(module='GenPauli', name=kind, simulate=True,
                cfg='CONSTANT KIND = "%s"\nCONSTANT LEN = %d\nCONSTANT MAXSITE = 4\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % (kind, length),
                extra={'quick': ['-simulate', 'num=%d' % num, '-depth', str(length + 2)],
                       'thorough': ['-simulate', 'num=%d' % (num * 8), '-depth', str(length + 2)]})


LAWS = [dict(module='PauliLaws', name='PauliLaws K=%d' % k, cfg='CONSTANT K = %d\nSPECIFICATION Spec\nINVARIANTS Assoc Square AntiSym Jacobi CommuteTest Irreflexive Transitive Total Distrib\n' % k, **kw)
        for k, kw in ((1, {}), (2, {}), (3, dict(thorough_only=True, timeout=3000)))]
PLAN['C04'] = dict(trace=PAULI, gen=[genpauli('mono', 200, 16)], mc=LAWS)
PLAN['C25'] = dict(trace=PAULI, gen=[genpauli('cmp', 250, 24)], mc=LAWS[:2])
PLAN['C05'] = dict(trace=PAULI, gen=[genpauli('sum', 400, 20)], mc=LAWS[:2])

RUN = {'run': dict(module='TraceRun', workers=8)}
_OL = 'CONSTANTS KIND = "%s"\nNSTEPS = %d\nLEVELS = {%s}\nPERTURB = %s\nTOLV = %s\nEMIT = FALSE\nSPECIFICATION Spec\nINVARIANTS EndsEarly NotLate Kicks NoTol Length\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'
OPTLOOP = [dict(module='OptLoop', name='OptLoop %s perturb=%s tol=%s' % (k, p, tv), cfg=_OL % (k, ns, lv, p, tv), **kw)
           for k, ns, lv, kw in (('ps', 7, '0, 1, 2', {}), ('exact', 7, '0, 1, 2', {}), ('approx', 12, '0, 2', {}), ('approx', 12, '0, 1, 2', dict(thorough_only=True, timeout=3000, heap='8g')))
           for p in ('TRUE', 'FALSE') for tv in ('1000000',)] + \
          [dict(module='OptLoop', name='OptLoop approx no tolerance', cfg=(_OL % ('approx', 11, '0, 2', 'FALSE', 'X')).replace('TOLV = X', 'TOLV <- NONE'))]
GENSCRIPTS = dict(module='OptLoop', name='scripts', simulate=True, cfg=(_OL % ('approx', 13, '0, 1, 2, 3', 'TRUE', '1000000')).replace('EMIT = FALSE', 'EMIT = TRUE')
                  .replace('PROPERTY Terminates\n', ''), extra={'quick': ['-simulate', 'num=220', '-depth', '16'], 'thorough': ['-simulate', 'num=900', '-depth', '16']})
PLAN['C12'] = dict(trace=RUN, mc=OPTLOOP, gen=[GENSCRIPTS])
PLAN['C13'] = dict(trace=dict(RUN, **{r'hist_n\d': sized('TraceHist')}))

GRAPH = {'graph': dict(module='TraceGraph', workers=8)}
_EC = 'CONSTANTS NV = %d\nEXTRA = %d\nRL = %d\nIL = %d\nFAMILY = "%s"\nSPECIFICATION Spec\nINVARIANTS TypeOK DoneOK ZeroUsed PickOK NotStuck\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'
COLORING = [dict(module='EdgeColoring', name='EdgeColoring %s NV=%d extra=%d limits=%d,%d' % (a[4], a[0], a[1], a[2], a[3]), cfg=_EC % a, **kw)
            for a, kw in (((3, 2, 2, 1, 'all'), {}), ((4, 0, 1, 0, 'all'), {}), ((5, 1, 2, 1, 'cycle'), {}), ((5, 1, 1, 0, 'chord'), {}), ((5, 1, 1, 0, 'star'), {}),
                          ((7, 0, 2, 1, 'cycle'), dict(thorough_only=True)), ((4, 1, 2, 1, 'all'), dict(thorough_only=True, timeout=3000, heap='8g')))]
PLAN['C15'] = dict(trace=GRAPH, mc=COLORING)
PLAN['C16'] = dict(trace=GRAPH, mc=COLORING)

PLAN['C14'] = dict(trace={'options': dict(module='TraceOptions', workers=8)},
                   gen=[dict(module='GenOptions', name='options', cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')])

PLAN['C21'] = dict(trace={r'descent_n\d': sized('TraceDescent', wide=2)})

PLAN['C22'] = dict(trace={'angles': dict(module='TraceBlochAngles', workers=8)},
                   gen=[dict(module='GenAngles', name='angles', cfg={'quick': 'CONSTANT M = 24\nSPECIFICATION Spec\nINVARIANT Unit\nCHECK_DEADLOCK FALSE\n',
                                                                    'thorough': 'CONSTANT M = 120\nSPECIFICATION Spec\nINVARIANT Unit\nCHECK_DEADLOCK FALSE\n'})])
PLAN['C23'] = dict(trace={r'plots_n\d': sized('TracePlots', wide=2)})
PLAN['C24'] = dict(trace={'folders': dict(module='TraceFolders', workers=4)},
                   mc=[dict(module='Folders', name='Folders %d processes depth %d' % (len(pr.split(',')), dp),
                            cfg='CONSTANTS PROCS = {%s}\nNAMES = {%s}\nDEPTH = %d\nTOLERANT = TRUE\nSPECIFICATION Spec\nINVARIANTS Parents Exists NeverRaises\nPROPERTIES Undisturbed Returns\nCHECK_DEADLOCK FALSE\n' % (pr, nm, dp), **kw)
                       for pr, nm, dp, kw in (('1, 2', '"a"', 2, {}), ('1, 2', '"a", "b"', 1, {}), ('1, 2, 3', '"a"', 2, {}), ('1, 2', '"a", "b"', 2, dict(thorough_only=True, timeout=3000)))] +
                      [dict(module='Folders', name='Folders without tolerance (must fail)', expect='NeverRaises',
                            cfg='CONSTANTS PROCS = {1, 2}\nNAMES = {"a"}\nDEPTH = 1\nTOLERANT = FALSE\nSPECIFICATION Spec\nINVARIANTS Parents Exists NeverRaises\nCHECK_DEADLOCK FALSE\n')],
                   gen=[dict(module='GenFolders', name='folders', simulate=True, cfg='CONSTANTS LEN = 8\nDEPTH = 3\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n',
                             extra={'quick': ['-simulate', 'num=150', '-depth', '10'], 'thorough': ['-simulate', 'num=2000', '-depth', '10']})])

_FR = 'CONSTANTS COPY = %s\nSTEPS = 4\nSPECIFICATION Spec\nINVARIANT Frame\nCHECK_DEADLOCK FALSE\n'
PLAN['C20'] = dict(trace={'frames': dict(module='TraceFrames', workers=4)},
                   mc=[dict(module='FramesMC', name='Frames copying', cfg=_FR % 'TRUE'), dict(module='FramesMC', name='Frames aliasing (must fail)', cfg=_FR % 'FALSE', expect='Frame')])

_CL = 'CONSTANTS K = %d\nGEN = %d\nSPECIFICATION Spec\nINVARIANTS Result Least Closed\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'
PLAN['C26'] = dict(trace={'closure': dict(module='TraceClosure', workers=8)},
                   mc=[dict(module='ClosureMC', name='ClosureMC sites=%d generators<=%d' % (k, g), cfg=_CL % (k, g), **kw)
                       for k, g, kw in ((1, 2, {}), (2, 2, {}), (2, 3, dict(thorough_only=True, timeout=3000, heap='8g')))]+ [
                       dict(module='ArrowsMC', name='ArrowsMC sites=%d generators<=%d' % (k, g), cfg=_CL.replace('Result Least Closed', 'Result Explained Upward') % (k, g), **kw)
                       for k, g, kw in ((1, 3, {}), (2, 3, {}), (2, 4, dict(thorough_only=True, timeout=3000, heap='8g')))])

PLAN['C28'] = dict(trace={r'bch_n\d': sized('TraceBch')})
PLAN['C27'] = dict(trace={'report': dict(module='TraceReport', workers=8)})

# ---- design models of the layers and of the laws behind the trace specifications
def model(module, name, const, inv='', prop='', view='', **kw):
    cfg = 'CONSTANTS %s\nSPECIFICATION Spec\n' % '\n'.join('%s = %s' % c for c in const.items())
    cfg += ('INVARIANTS %s\n' % inv if inv else '') + ('PROPERTIES %s\n' % prop if prop else '') + ('VIEW %s\n' % view if view else '') + 'CHECK_DEADLOCK FALSE\n'
    return dict(module=module, name=name, cfg=cfg, **kw)


def layersmc(n, grid, depth, **kw):
    return model('LayersMC', 'LayersMC n=%d grid=%d depth=%d' % (n, grid, depth), dict(N=n, GRID=grid, DEPTH=depth, ETA=10000000),
                 'Pure Sinusoid Derivative FlowRot FlowProduct Optimum', 'Descent LineMin', **kw)


LAYERSMC = [layersmc(1, 4, 1), layersmc(2, 2, 1), layersmc(1, 8, 2, thorough_only=True, timeout=3000), layersmc(2, 4, 1, thorough_only=True, timeout=3000, heap='8g')]
for _p in ('C06', 'C07', 'C08', 'C09', 'C10', 'C19'):
    PLAN[_p]['mc'] = LAYERSMC

PLAN['C18']['mc'] = [model('ZassMC', 'ZassMC calls=%d ratio<=%d' % (c, r), dict(NQ=3, MAXRATIO=r, CALLS=c), 'Alternates Starts Partner NeverStuck', 'Finishes', 'View', **kw)
                     for c, r, kw in ((5, 3, {}), (8, 3, dict(thorough_only=True)), (8, 5, dict(thorough_only=True)))]
PLAN['C21']['mc'] = [model('DescentLaws', 'DescentLaws n=%d gates=%d grid=%d' % (n, ln, g), dict(N=n, LEN=ln, GRID=g), 'ShiftRule Downhill', **kw)
                     for n, ln, g, kw in ((1, 2, 3, {}), (2, 2, 2, {}), (1, 3, 3, dict(thorough_only=True, timeout=3000)))]
PLAN['C02']['mc'] = [model('CircuitLaws', 'CircuitLaws n=%d' % n, dict(N=n, GRID=3), 'Inverses Powers Conjugations TwoQubit ThreeQubit', **kw)
                     for n, kw in ((1, {}), (2, {}), (3, dict(thorough_only=True)))]
PLAN['C01']['mc'] = [model('EmbedLaws', 'EmbedLaws qubits<=%d' % q, dict(MAXQ=q), 'Product Identity Exchange Commute Trace', **kw) for q, kw in ((2, {}), (3, dict(thorough_only=True)))]
PLAN['C03']['mc'] = PLAN['C01']['mc']
PLAN['C13']['mc'] = [model('RunHist', 'RunHist perturb=%s steps=%d' % (p, ns), dict(NLAYERS=3, NSTEPS=ns, PERTURB=p), 'Aligned Chain InTurn NoKickWithout', 'Past Finishes', **kw)
                     for p in ('TRUE', 'FALSE') for ns, kw in ((9, {}), (14, dict(thorough_only=True)))]

# ---- how many harness processes draw inputs side by side (1: the scenarios come from the specification)
for _p, _k in dict(C01=2, C02=4, C06=3, C07=4, C08=3, C09=3, C10=4, C11=5, C13=2, C17=2, C18=5, C19=3, C20=2, C21=3, C23=4, C26=3, C27=4, C28=5).items():
    PLAN[_p]['shards'] = _k
