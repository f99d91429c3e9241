"""What decides each property: design models for TLC, drivers of the real code, and the trace specification that judges them."""
PLAN = {
    'C01': dict(design=[dict(module='MCRunLoop', cfg='MCRunLoop.cfg', feeds='p01')],
                traces=[dict(driver='p01', spec='RunLoopTrace')], min_cases=100),
    'C02': dict(design=[dict(module='MCCdict', cfg='MCCdict.cfg', feeds='p02')],
                traces=[dict(driver='p02', spec='CdictTrace')], min_cases=500),
    'C03': dict(design=[dict(module='MCPersist', cfg='MCPersist.cfg', feeds='p03')],
                traces=[dict(driver='p03', spec='PersistTrace')], min_cases=300),
    'C04': dict(design=[dict(module='MCMetropolis', cfg='MCMetropolis.cfg', feeds='p04')],
                traces=[dict(driver='p04', spec='MetropolisTrace')], min_cases=60),
    'C05': dict(design=[dict(module='MCAdapt', cfg='MCAdapt.cfg', feeds='p05')],
                traces=[dict(driver='p05', spec='AdaptTrace')], min_cases=60),
    'C06': dict(design=[dict(module='MCLeapfrog', cfg='MCLeapfrog.cfg')],
                traces=[dict(driver='p06', spec='LeapfrogTrace')], min_cases=50),
    'C07': dict(design=[dict(module='MCScenario', cfg='MCScenario.cfg', feeds='p07')],
                traces=[dict(driver='p07', spec='ScenarioTrace')], min_cases=100),
    'C08': dict(design=[dict(module='MCLadder', cfg='MCLadder.cfg', feeds='p08')],
                traces=[dict(driver='p08', spec='LadderTrace')], min_cases=40),
    'C09': dict(design=[dict(module='MCWeights', cfg='MCWeights.cfg')],
                traces=[dict(driver='p09', spec='WeightTrace')], min_cases=30),
    'C10': dict(design=[dict(module='MCABC', cfg='MCABC.cfg', feeds='p10')],
                traces=[dict(driver='p10', spec='ABCTrace')], min_cases=60),
    'C11': dict(design=[dict(module='MCABCSMC', cfg='MCABCSMC.cfg', feeds='p11')],
                traces=[dict(driver='p11', spec='ABCSMCTrace')], min_cases=25),
    'C12': dict(design=[dict(module='MCFilter', cfg='MCFilter.cfg', feeds='p12')],
                traces=[dict(driver='p12', spec='FilterTrace')], min_cases=40),
    'C13': dict(design=[dict(module='MCBackward', cfg='MCBackward.cfg', feeds='p13')],
                traces=[dict(driver='p13', spec='BackwardTrace')], min_cases=40),
    'C14': dict(design=[dict(module='MCOnline', cfg='MCOnline.cfg', feeds='p14')],
                traces=[dict(driver='p14', spec='OnlineTrace')], min_cases=40),
    'C15': dict(design=[dict(module='MCKalman', cfg='MCKalman.cfg', feeds='p15')],
                traces=[dict(driver='p15', spec='KalmanTrace')], min_cases=50),
    'C16': dict(design=[dict(module='MCJoint', cfg='MCJoint.cfg', feeds='p16')],
                traces=[dict(driver='p16', spec='SSMTrace')], min_cases=25),
    'C17': dict(design=[dict(module='MCSimulators', cfg='MCSimulators.cfg', feeds='p17')],
                traces=[dict(driver='p17', spec='SimTrace')], min_cases=60),
    'C18': dict(design=[dict(module='MCBisect', cfg='MCBisect.cfg', feeds='p18')],
                traces=[dict(driver='p18', spec='UtilTrace')], min_cases=60),
    'C19': dict(design=[dict(module='MCMetrics', cfg='MCMetrics.cfg', feeds='p19')],
                traces=[dict(driver='p19', spec='MetricsTrace')], min_cases=50),
    'C20': dict(design=[dict(module='MCKernels', cfg='MCKernels.cfg', feeds='p20')],
                traces=[dict(driver='p20', spec='KernelTrace')], min_cases=50),
    'C21': dict(design=[dict(module='MCEKI', cfg='MCEKI.cfg', feeds='p21')],
                traces=[dict(driver='p21', spec='EKITrace')], min_cases=30),
    'C22': dict(design=[dict(module='MCSVGD', cfg='MCSVGD.cfg', feeds='p22')],
                traces=[dict(driver='p22', spec='SVGDTrace')], min_cases=25),
    'C23': dict(design=[dict(module='MCQuasiNewton', cfg='MCQuasiNewton.cfg', feeds='p23')],
                traces=[dict(driver='p23', spec='QuasiNewtonTrace')], min_cases=60),
    'C24': dict(design=[dict(module='MCHistory', cfg='MCHistory.cfg', feeds='p24', workers=1)],
                traces=[dict(driver='p24', spec='HistoryTrace')], min_cases=18),
    'C25': dict(design=[dict(module='MCInvariance', cfg='MCInvariance.cfg')],
                traces=[dict(driver='p25', spec='InvarianceTrace')], min_cases=40),
    'C26': dict(design=[dict(module='MCPlots', cfg='MCPlots.cfg', feeds='p26')],
                traces=[dict(driver='p26', spec='PlotTrace')], min_cases=60),
}
