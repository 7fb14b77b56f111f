'''Which verdicts decide which property.'''

SPEC = {
    'C01': ('answer:edit', 'answer:query', 'crash:edit', 'crash:query',
            'hang:edit', 'hang:query', 'rejected:edit', 'structure',
            'editstructure', 'editinputs', 'inputs'),
    'C02': ('structure', 'inputs'),
    'C03': ('answer:maxflow', 'crash:maxflow', 'hang:maxflow'),
    'C04': ('answer:mincost', 'crash:mincost', 'hang:mincost'),
    'C05': ('answer:sp', 'crash:sp', 'hang:sp'),
    'C06': ('answer:mst', 'crash:mst', 'hang:mst'),
    'C07': ('answer:reach', 'crash:reach', 'hang:reach'),
    'C08': ('differs',),
    'C09': ('solo',),
    'C10': ('swallow', '@answer', '@crash', '@hang', '@structure', '@inputs'),
    'C11': ('leak',),
    'C12': ('frame', 'layout', 'rendercrash', 'crash:render', 'clusters'),
    'C13': ('deliver', 'silent', 'noraise', 'rendercrash', 'answer:render',
            'crash:render', 'hang:render', 'frame/write'),
    'C14': ('mode', 'modeframes'),
    'C15': ('answer:dset', 'crash:dset', 'hang:dset', 'rejected:dset'),
    'C16': ('answer:tree', 'crash:tree', 'hang:tree', 'rejected:tree'),
    'C17': ('answer:random', 'crash:random', 'hang:random', 'differs',
            'solo', 'hashseed'),
    'C18': ('readonly', 'answer:query', 'answer:sp', 'crash:query',
            'crash:sp', 'hang:query', 'hang:sp', 'frame/to_string'),
    'C21': ('hashseed',),
}


def relevant(prop, v):
    for t in SPEC[prop]:
        if t in (v['tag'], '%s/%s' % (v['tag'], v['name'])):
            return True
        if t.startswith('@') and v['after'] and \
                v['tag'].split(':')[0] == t[1:]:
            return True
    return False


def judge(prop, res):
    '''The violations of the property in the result of a run.'''
    return [v for v in res['violations'] if relevant(prop, v)]


def cls(v):
    '''What must stay the same while a failure is being minimised.'''
    return (v['tag'], v.get('name'))
