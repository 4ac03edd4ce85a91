from . import realtime, engine, graph, mixing, params, nodes, events, sources, sampler, recorder, buffers, fx, dynamics, meter, units, convolve, setup, ready
RULES = {}
for m in (realtime, engine, graph, mixing, params, nodes, events, sources, sampler, recorder, buffers, fx, dynamics, meter, units, convolve, setup, ready):
    RULES.update(m.RULES)
