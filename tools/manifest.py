"""Regenerates MANIFEST.json from the claimed list below."""
import json
CLAIMED = {
 'C01': 'one step of module mixes from any state and control, and short histories',
 'C02': 'battery step from an arbitrary valid state and short histories, exact reals plus a rounding-error model',
 'C03': 'battery steps and histories from an arbitrary state',
 'C04': 'goal sequences of bounded length, symbolic start-up and wind-down times',
 'C05': 'single steps and short histories with any limits, prices and requests',
 'C06': 'steps of grids with any series of a few rows, any limits and requests',
 'C07': 'steps of grids with any series of a few rows, any prices and requests',
 'C08': 'one or two steps of module mixes with any series, state and control',
 'C09': 'one step of each module type with any state and request, errors on and off',
 'C10': 'one step (and short histories) of module mixes with any state, prices and control',
 'C11': 'every conversion for any parameters, values and states',
 'C12': 'episodes of up to five steps with any bounds and series',
 'C13': 'histories of up to three steps of module mixes (27 steps for one mix), also starting late in a longer series',
 'C14': 'series of a few rows, every step up to and past the end, any noise draw',
 'C15': 'modules and mixes saved after 0..2 steps, any parameters and series',
 'C16': 'one to three steps of module mixes with every priority list, any parameters, series, charge and status',
 'C17': 'ranges and lengths up to 10^6, microgrids of up to 4 steps, all draws',
 'C18': 'up to four modules in any order, any feasible requests',
 'C19': 'conversions of the listed architectures with any parameters, series of three steps, one step of behaviour',
 'C20': 'horizons of 1 and 2 steps (3 in the thorough tier), any parameters, states and series, any solution handed out by the numerical solver (which is replaced)',
 'C21': 'every draw of every module type and of module mixes in any state',
 'C22': 'reset and one to two steps of both environments with any state and action, listed key selections, flat and nested',
 'C23': 'one or two steps of the listed architectures with any parameters, series, state of charge and control; train/test splits of 5 steps',
 'C24': 'any data files of 3 rows with a positive peak, any random draws, 2 grid steps in a year; outage profiles of 5 steps (8 in the thorough tier)',
 'C25': 'days of data with any values in a few hours, grid series of 4 steps (6 in the thorough tier), any random draws, any fitted curves (the quantile regression is replaced by arbitrary coefficients), any plans (the optimiser is replaced by arbitrary plans), up to 3 plans to choose from, 2 steps of stochastic control',
 'C26': 'one or two steps of microgrids with a battery and possibly a grid and a genset, any parameters, series and states of charge; results of up to 3 steps with any records; the optimiser is replaced by arbitrary results',
}
NA = {}
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    if p in CLAIMED:
        m['checks'].append(dict(property=p, quick_cmd=f'bash check.sh {p} quick', thorough_cmd=f'bash check.sh {p} thorough',
            evidence_file=f'evidence/{p}.json', technique='symbolic execution of the real Python code with z3 (solver-based checking)',
            level='model_checking',
            level_note='For all inputs within the stated bounds: ' + CLAIMED[p] + '. Floats are exact reals unless stated; trusts z3, the numpy/gym/yaml stand-ins listed in the evidence (validated by replaying path witnesses on the unpatched code).'))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check under construction')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
