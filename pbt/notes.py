# -*- coding: utf-8 -*-
"""oracle and level note of each check, for MANIFEST.json"""
NOTES = {
    'C01': ('the exact energy of the reference model (multiple precision)',
            'systems up to 3 states, 2 dissipations, 2 ports, 8 steps; '
            'tolerances 1e-11 (chain rule) and 1e-7 (balance)'),
    'C02': ('the documented implicit equations, evaluated in multiple '
            'precision from the specification',
            'systems up to 3 states, 3 dissipations, 2 ports, 6 steps; '
            'gradient methods discret, theta, trapez; tolerance 1e-7'),
    'C03': ('an independent modified nodal analysis',
            'linear networks up to about 10 components and 3 connectors; '
            'termination and completeness are required only where the '
            'causality follows by elementary propagation'),
    'C04': ('the same system before the operation, and its specification, '
            'evaluated in multiple precision',
            'systems up to 4 states, 4 dissipations, 5 ports; histories up '
            'to 6 operations; slow symbolic inverses are inconclusive'),
    'C05': ('the composition of the separate parts, solved numerically',
            'up to 3 parts, 3 connectors'),
    'C06': ('a snapshot model of every object of the pool',
            'pools of up to 2 sources, histories up to 8 operations'),
    'C07': ('a model matrix updated by the same operations',
            'up to about 8 components and 8 assignments'),
    'C08': ('an evaluation in multiple precision of the specification',
            'systems up to 2 states, 2 dissipations, 2 ports; histories up '
            'to 5 operations'),
    'C09': ('an evaluation in multiple precision of the specification',
            'systems up to 3 states, 2 dissipations, 2 ports; 1-4 points'),
    'C10': ('an in-memory run of the solver, step by step',
            'systems up to 3 states, runs up to about 12 steps; selections '
            'are non-negative and non-empty'),
    'C11': ('a fresh solver with the current settings',
            'one or two simulations, histories up to 6 operations'),
    'C12': ('the Python solver on the same data',
            'systems up to 3 states, 2 dissipations, 2 ports, 5 steps; '
            'g++ without optimisation; tolerance 1e-7'),
    'C13': ('the documented laws of the components, evaluated in multiple '
            'precision',
            '1-3 components at a time, up to 3 operating points; positive '
            'plate voltage for triodes; voltage-driven diodes'),
    'C14': ('a plain list of lines updated by the same operations, and the '
            'components built one by one',
            'up to 3 netlists of up to 30 lines, histories up to 12 '
            'operations; no semicolon, equal sign or newline in strings'),
    'C15': ('an independent modified nodal analysis of the components',
            'linear networks up to about 12 components, 4 pieces, 10 '
            'operations; nothing is added to a network after a merge; '
            'completeness is required only where the causality follows by '
            'elementary propagation'),
    'C16': ('interpolation of the data, fractional powers, a modal expansion '
            'of the beam and the equations of the pickup',
            'up to 9 points per data file; 20% on fractional powers (the '
            'weights come from a numerical optimisation); beams up to 4 '
            'modes and 3 contacts, 0.3%'),
    'C17': ('the documented definition of each signal and option',
            'up to a few hundred samples; noise is compared with its '
            'bounds'),
    'C18': ('the Python solver (tied to the documented scheme by C02), run '
            'against an interpreter of the Faust language',
            'systems up to 2 states, 2 dissipations, 3 ports, polynomial '
            'laws; a few samples; discrete gradients only for linear or '
            'split systems (Faust has no piecewise expressions)'),
    'C19': ('the step-by-step solver built with every setting explicit',
            'networks up to about 6 components and systems up to 2 states, '
            'runs up to 4 steps'),
    'C20': ('a reader of the LaTeX mathematics evaluated at drawn points and '
            'compared with the specification',
            'systems up to 2 storages, 2 dissipations, 2 ports, 1 connector; '
            'networks up to 4 components'),
    'C21': ('the values of the step-by-step solver, or the drawn curves',
            'systems up to 2 states, runs up to 8 steps, up to 4 axes'),
}
