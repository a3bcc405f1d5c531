"""What decides each property: design machines (TLC configurations) and trace checks."""

def trace(module, mode, quick, thorough, rounds=4, need=()):
    return {'module': module, 'mode': mode, 'quick': quick, 'thorough': thorough, 'thorough_rounds': rounds, 'need': list(need)}

def machine(module, cfg, min_states, **kw):
    return {'module': module, 'cfg': cfg + '.cfg', 'min_states': min_states, **kw}

def deep(module, cfg, min_states, **kw):
    return machine(module, cfg, min_states, thorough=True, timeout=3600, heap='8g', workers=4, **kw)

NUM = [machine('NumMachine', 'NumMachine', 500)]
EUCLID = [machine('Euclid', 'Euclid', 4800)]
FIELD = [machine('FieldMachine', 'FieldMachine', 400)]
MONO = [machine('MonoMachine', 'MonoMachine', 500)]
ORDER = [machine('OrderMachine', 'OrderMachine', 700), deep('OrderMachine', 'OrderMachine4', 700)]
TERMS = [machine('TermList', c, 150) for c in ('TermList2', 'TermList3', 'TermListQ')] + \
        [deep('TermList', c, 150, replay=False) for c in ('TermListBig', 'TermListBig3')]
EVAL = [machine('EvalMachine', c, 20) for c in ('EvalGF2', 'EvalGF3', 'EvalQ')]
DIVISION = [machine('Division', c, 9000) for c in ('DivisionGF2', 'DivisionGF3', 'DivisionQ')] + \
           [deep('Division', 'DivisionBig', 9000, replay=False)]
SPOLY = [machine('SPolyMachine', c, 2000) for c in ('SPolyGF3', 'SPolyQ', 'SPolyGF5')]
CRITERION = [machine('Criterion', c, 1000) for c in ('CriterionGF2', 'CriterionGF3', 'CriterionQ')]
BUCHBERGER = [machine('Buchberger', c, 500) for c in ('BuchbergerGF2', 'BuchbergerGF3', 'BuchbergerQ')] + \
             [machine('Buchberger', c, 300, replay=False) for c in ('BuchbergerFree2', 'BuchbergerFree3', 'BuchbergerFreeQ')]
ROWS = [machine('RowOps', 'RowOpsGF2', 12000), machine('RowOps', 'RowOpsGF3', 4000), machine('RowOps', 'RowOpsQ', 1000)]
MATS = [machine('MatMachine', c, 800) for c in ('MatMachineGF2', 'MatMachineGF3', 'MatMachineQ')] + \
       [deep('MatMachine', 'MatMachineBig', 90000, replay=False)]
GAUSS = [machine('Gauss', c, 500) for c in ('GaussGF2', 'GaussGF2b', 'GaussGF3', 'GaussQ', 'GaussQ2')] + \
        [deep('Gauss', 'GaussBig', 600)]
HELPERS = [machine('Helpers', 'Helpers', 8000), deep('Helpers', 'HelpersBig', 20000)]
RENDER = [machine('RenderMachine', 'RenderMachine', 1200), deep('RenderMachine', 'RenderMachineBig', 1700)]
CONES = [machine('ConeMachine', c, 300) for c in ('Cone2', 'Cone2b', 'Cone3', 'Cone3b', 'ConePoly')] + \
        [deep('ConeMachine', c, 200) for c in ('ConePolyBig', 'Cone4', 'ConePoly4')]

PLAN = {
    'C01': {'machines': NUM, 'traces': [trace('NumTrace', 'C01', 100000, 200000)]},
    'C02': {'machines': NUM, 'traces': [trace('NumTrace', 'C02', 100000, 200000)]},
    'C03': {'machines': NUM, 'traces': [trace('NumTrace', 'C03', 100000, 200000)]},
    'C04': {'machines': EUCLID, 'traces': [trace('NumTrace', 'C04', 100000, 200000)]},
    'C05': {'machines': MONO, 'traces': [trace('MonoTrace', 'C05', 100000, 200000)]},
    'C06': {'machines': ORDER, 'traces': [trace('MonoTrace', 'C06', 100000, 200000)]},
    'C07': {'machines': TERMS, 'traces': [trace('PolyTrace', 'C07', 50000, 150000)]},
    'C08': {'machines': TERMS, 'traces': [trace('PolyTrace', 'C08', 50000, 150000)]},
    'C09': {'machines': EVAL, 'traces': [trace('PolyTrace', 'C09', 50000, 150000)]},
    'C10': {'machines': DIVISION, 'traces': [trace('PolyTrace', 'C10', 40000, 150000)]},
    'C11': {'machines': SPOLY, 'traces': [trace('PolyTrace', 'C11', 40000, 150000)]},
    'C12': {'machines': CRITERION, 'traces': [trace('PolyTrace', 'C12', 40000, 150000)]},
    'C13': {'machines': BUCHBERGER, 'traces': [trace('PolyTrace', 'C13', 40000, 150000)]},
    'C14': {'machines': BUCHBERGER, 'traces': [trace('PolyTrace', 'C14', 40000, 150000)]},
    'C15': {'machines': MATS, 'traces': [trace('MatTrace', 'C15', 80000, 150000)]},
    'C16': {'machines': ROWS, 'traces': [trace('MatTrace', 'C16', 80000, 150000)]},
    'C17': {'machines': GAUSS, 'traces': [trace('MatTrace', 'C17', 45000, 120000)]},
    'C18': {'machines': GAUSS, 'traces': [trace('MatTrace', 'C18', 45000, 120000)]},
    'C19': {'machines': GAUSS, 'traces': [trace('MatTrace', 'C19', 45000, 120000)]},
    'C20': {'machines': HELPERS, 'traces': [trace('MiscTrace', 'C20', 100000, 200000)]},
    'C21': {'machines': RENDER, 'traces': [trace('MiscTrace', 'C21', 100000, 200000)]},
    'C22': {'machines': CONES, 'traces': [trace('MiscTrace', 'C22', 30000, 120000)]},
    'C23': {'machines': FIELD, 'traces': [trace('NumTrace', 'C23', 100000, 200000)]},
    'C24': {'machines': GAUSS, 'traces': [trace('MatTrace', 'C24', 45000, 120000)]},
}
