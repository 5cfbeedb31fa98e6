import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['src/pymgrid/'+f for f in files],mechanism=[dict(name=n,where='src/pymgrid/'+w) for n,w in mech],
      state=[dict(name=a,meaning=b,where='src/pymgrid/'+c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))

p('C01','Every microgrid step balances energy',
 'In every step of a microgrid that has a balancing (unbalanced-energy) module, for whatever control is passed, the energy provided by all modules equals the energy absorbed by all modules and the step does not fail. The balance record of the step (overall, fixed and controllable provided/absorbed totals) agrees with the energies the individual modules report.',
 ['inputs','configurations','histories'],'all loads, renewable outputs, prices, limits, battery/genset states and controls, over the module mixes and step counts listed in the evidence',
 'Tests run a few load+renewable microgrids with constant series; none contains a battery, grid or genset together and the control is a handful of constants.',
 ['microgrid/microgrid.py','microgrid/utils/step.py','modules/unbalanced_energy_module.py'],
 [('fixed, then controllable, then flex dispatch','microgrid/microgrid.py:Microgrid.run'),('running totals','microgrid/utils/step.py:MicrogridStep.balance'),('absorbs any residual','modules/unbalanced_energy_module.py')],
 observe=['Microgrid.run return value','Microgrid.log balance columns'])
p('C02','A battery never leaves its capacity and power limits',
 'From every state within capacity and for every request, after a battery step the stored charge is between minimum and maximum capacity, the state of charge is charge over maximum capacity, and the energy moved respects the per-step charge and discharge limits and what is stored or free. The step never fails when errors are not requested, also under floating-point rounding over consecutive steps.',
 ['inputs','histories','configurations'],'all capacities, limits, efficiencies in (0,1], reachable charges and requests',
 'There is no battery test at all; scenario-based tests only touch a few trajectories, and the failing cases need rare rounding or extreme parameters.',
 ['modules/battery_module.py','modules/base/base_module.py'],
 [('max_production / max_consumption','modules/battery_module.py:BatteryModule'),('clipping','modules/base/base_module.py:BaseMicrogridModule.as_source/as_sink'),('state update','modules/battery_module.py:BatteryModule._update_state')],
 [('current charge','stored energy','modules/battery_module.py')],['BatteryModule.step','BatteryModule.current_charge','BatteryModule.soc'])
p('C03','Battery energy and wear cost are accounted exactly',
 'A battery step changes the stored charge by the absorbed energy times the efficiency, or by minus the provided energy divided by the efficiency, and by nothing else; its reward is minus the cycle cost times the absolute change in stored energy. Over any sequence of steps the final charge equals the initial charge plus the sum of these changes, and resetting the episode does not create or destroy charge.',
 ['inputs','histories','configurations'],'all parameters, charges and request sequences up to the stated length, default and user-defined transition models',
 'No test checks stored energy or wear cost; a handful of samples cannot separate efficiency applied in the wrong direction from coincidences (efficiency 1, zero cost).',
 ['modules/battery_module.py'],[('transition model','modules/battery_module.py:BatteryModule.default_transition_model'),('cost','modules/battery_module.py:BatteryModule.get_cost')],
 [('current charge','stored energy','modules/battery_module.py')],['BatteryModule.step'])
p('C04','Gensets start up, wind down and abort as documented',
 'For every start-up and wind-down time and every sequence of goal statuses, a genset follows the documented rules: a requested change completes only after the configured number of further steps, immediately when that time is zero; asking for the present status aborts a change in progress and resets the counters when abortion is allowed and is ignored otherwise; goals in [0,1] are rounded. The predicted next status, maximum and minimum production equal what the following step yields.',
 ['histories','inputs','configurations'],'all goal sequences up to the stated length, all start-up/wind-down times in the bound, both initial statuses, abortion allowed or not',
 'Tests walk a few hand-written sequences for a few times; interactions such as re-requesting after an abort or zero/non-zero mixed times are not covered.',
 ['modules/genset_module.py'],[('status machine','modules/genset_module.py:GensetModule.update_status'),('prediction','modules/genset_module.py:GensetModule.next_status')],
 [('current/goal status, steps until up/down','state machine','modules/genset_module.py')],['GensetModule.step','GensetModule.state_dict'])
p('C05','Genset production, fuel cost and CO2 follow its status and limits',
 'A genset that is off produces nothing; one that is on produces between its running minimum and maximum, exactly the request when that is feasible. Its reward is minus (fuel cost of the production plus CO2 price times CO2), where fuel cost is linear or the user function, and the reported CO2 is the per-unit CO2 times the production.',
 ['inputs','configurations','histories'],'all production limits, prices, requests, statuses and status changes',
 'Tests check a few productions and costs with fixed numbers; CO2 terms and requests in the gap below the minimum while starting or stopping are not sampled together.',
 ['modules/genset_module.py','modules/base/base_module.py'],[('limits by status','modules/genset_module.py:GensetModule.max_production/min_production'),('cost','modules/genset_module.py:GensetModule.get_cost')],
 observe=['GensetModule.step'])
p('C06','Grid exchange respects import/export limits and outages',
 'In every step the energy imported from the grid is at most the import limit and the energy exported at most the export limit, both zero while the grid status is down, and exactly the request when that is feasible. Three-column time series mean the grid is always up; invalid limits, statuses or negative prices are rejected at construction.',
 ['inputs','configurations','histories'],'all limits, price and status series, requests, positions in the series and forecast horizons',
 'There is no grid module test.',
 ['modules/grid_module.py','modules/base/base_module.py'],[('status-scaled limits','modules/grid_module.py:GridModule.max_production/max_consumption'),('validation','modules/grid_module.py:GridModule._check_params')],
 observe=['GridModule.step'])
p('C07','Grid exchange is priced with the prices of the current step',
 'The reward of importing is minus import price times energy minus CO2 price times the CO2 emitted, the reward of exporting is plus export price times energy, using the price and CO2 values of the step at which the energy is exchanged; the reported CO2 is the CO2 factor times the imported energy and zero when exporting. The marginal costs the grid reports are those same prices.',
 ['inputs','histories','configurations'],'all price/CO2 series, exchanged energies, steps and forecast horizons',
 'There is no grid module test; off-by-one in the time index or a swapped column is invisible on constant series.',
 ['modules/grid_module.py'],[('cost','modules/grid_module.py:GridModule.get_cost'),('co2','modules/grid_module.py:GridModule.get_co2_production')],observe=['GridModule.step'])
p('C08','Loads are always met and flexible modules waste nothing',
 'In every step each load absorbs exactly its current demand; each renewable provides at most what is available and reports the rest as curtailment; renewables are curtailed only when everything else needed is covered. Loss load and overgeneration are never both positive, loss load occurs only when the renewables are fully used, overgeneration only when no renewable is used, and each is charged at its own unit cost. Series may be given as arrays, lists or pandas objects and with either sign, which makes no difference; mixed signs are refused.',
 ['inputs','configurations','histories'],'all demands, outputs and controllable net supplies, one or two loads and renewables, with or without controllable modules',
 'Tests use single constant load/renewable microgrids; several renewables, exact ties and mixed controllables are not covered.',
 ['microgrid/microgrid.py','modules/load_module.py','modules/renewable_module.py','modules/unbalanced_energy_module.py'],
 [('flex dispatch','microgrid/microgrid.py:Microgrid.run'),('curtailment','modules/renewable_module.py:RenewableModule.update'),('unit costs','modules/unbalanced_energy_module.py:UnbalancedEnergyModule.get_cost')],observe=['Microgrid.run info and log'])
p('C09','Feasible requests are honoured, infeasible ones clipped or rejected',
 'Every module request inside the instantaneous limits is executed exactly. A request outside them is executed at the nearest limit when errors are off, and raises a ValueError that exchanges no energy (stored charge, step counter and log stay as they were) when errors are on.',
 ['inputs','configurations'],'all requests and states of battery, grid, genset and renewable modules, both error settings',
 'Tests exercise raise_errors on few values and never for battery and grid; the boundary values themselves are not sampled.',
 ['modules/base/base_module.py'],[('clipping / raising','modules/base/base_module.py:BaseMicrogridModule.as_source/as_sink/_raise_error')],observe=['module.step'])
p('C10','The step reward is the sum of the module rewards, or the shaped reward',
 'The reward returned and recorded for a step is the sum of the rewards of all modules in that step, which is minus the sum of the documented costs. When a reward shaping function is given, the returned and recorded shaped reward is its value on the step information and marginal costs while the recorded unshaped reward is unchanged; the built-in shapers return minus total curtailment, and battery discharge minus loss load over load (limited to [-1, 1], zero without load).',
 ['inputs','configurations','histories'],'all module states, controls and prices for the listed module mixes',
 'Tests compare rewards on constant microgrids without battery/grid/genset and custom shapers only.',
 ['microgrid/microgrid.py','microgrid/utils/step.py','microgrid/reward_shaping/'],[('accumulation','microgrid/utils/step.py:MicrogridStep.append'),('shaping','microgrid/utils/step.py:MicrogridStep.shaped_reward')],observe=['Microgrid.run reward','balance log'])
p('C11','Normalisation is a faithful affine map for actions and observations',
 'For every module and microgrid, denormalising maps [0,1] affinely onto the documented bounds and normalising is its inverse (a value that cannot vary, whose bounds coincide, is normalised to 0); a normalised control has exactly the effect of its denormalised control; and the observations returned by steps and resets are the normalised state, in [0,1]. The action bounds are the largest energies the module can absorb and provide in a step.',
 ['inputs','configurations'],'all module parameters, time series values, states and values to convert (scalars, arrays, nested dictionaries)',
 'Tests normalise a few hand-picked values; degenerate (zero-width) ranges, unequal charge/discharge limits and nested conversions are not covered.',
 ['utils/space.py','modules/base/base_module.py','microgrid/microgrid.py'],[('affine maps','utils/space.py:ModuleSpace.normalize/denormalize'),('nested maps','utils/space.py:MicrogridSpace')],observe=['to_normalized/from_normalized','step observations'])
p('C12','Time advances in lockstep and episodes end on schedule',
 'Each microgrid step advances every module by exactly one step and shows the time series values of the new step; the episode is reported done exactly when the step executed is the last before the final step; reset returns every module to the initial step of the episode. With a trajectory function each reset uses the bounds it returns, and a function returning invalid bounds is rejected when it is given to the microgrid.',
 ['histories','inputs','configurations'],'all series, initial/final steps within the bound, step/reset sequences of the stated length, all trajectory bounds in range',
 'Tests step a few microgrids from step 0 and check a few custom trajectories.',
 ['microgrid/microgrid.py','modules/base/timeseries/base_timeseries_module.py','modules/base/base_module.py'],[('step counter','modules/base/base_module.py:BaseMicrogridModule._update_step'),('done','modules/base/timeseries/base_timeseries_module.py:_done'),('trajectory','microgrid/microgrid.py:Microgrid._set_trajectory')],observe=['Microgrid.run done','current_step','reset'])
p('C13','The log records every step faithfully',
 'After any number of steps the log has one row per executed step, indexed by the time step, holding for every module its state as of the step (the values in effect before the energy exchange; for gensets the status in effect during the step) and the reward, energies, curtailment and CO2 of that step, with zero for the direction not used; get_log(drop_singleton_key=True) gives the same values without the module number when every name has one module. Resetting starts an empty log.',
 ['histories','inputs','configurations'],'all step histories of the stated length for the listed module mixes',
 'Tests check log shapes and a few columns for load/renewable microgrids.',
 ['utils/logger.py','modules/base/base_module.py','microgrid/microgrid.py'],[('module log','modules/base/base_module.py:BaseMicrogridModule._log'),('frame','microgrid/microgrid.py:Microgrid.get_log')],observe=['Microgrid.log','module.log'])
p('C14','Forecasts have the right values, shape and range',
 'At every step the forecast in a module state has exactly horizon entries per component: an oracle forecast is the next values of the series, entries past the end of the series are the middle of the observed range, and every forecaster result lies within the observation bounds. A user-defined forecaster, per value or for the whole horizon at once, is given the current value, the true values and the number of steps ahead, and its result is the forecast. Forecasting never alters the time series, and changing forecaster or horizon changes the following states accordingly, for one module or for a whole microgrid.',
 ['inputs','histories','configurations'],'all series, steps up to and past the end, horizons in the bound, all noise draws',
 'Tests check oracle and noise forecasts on fixed data and horizons; aliasing and end-of-series combinations are partial.',
 ['forecast/forecaster.py','modules/base/timeseries/base_timeseries_module.py','microgrid/microgrid.py'],[('pad and clip','forecast/forecaster.py:Forecaster'),('forecast','modules/base/timeseries/base_timeseries_module.py:forecast')],observe=['module.state_dict','Microgrid.state_dict'])
p('C15','Dumping and loading preserves modules and microgrids',
 'Dumping a module or microgrid at any point of an episode and loading it gives an equal object: same parameters, state, step, episode bounds, names, logs and forecaster settings. The loaded object continues exactly as the original: the same controls give the same observations, rewards and log rows.',
 ['histories','inputs','configurations','crash_points'],'all parameters and states, save points after 0..k steps, all module types and listed mixes',
 'Tests round-trip an empty microgrid and a fresh renewable module only; nothing is loaded mid-episode and stepped on.',
 ['modules/base/base_module.py','microgrid/microgrid.py','utils/serialize.py','utils/logger.py'],[('module codec','modules/base/base_module.py:serialize/deserialize'),('microgrid codec','microgrid/microgrid.py:from_yaml/_serialization_data'),('arrays','utils/serialize.py')],observe=['dump/load','run after load'])
p('C16','Priority-list control dispatches in order and within limits',
 'For every priority list and state, the action built by the rule-based controller or discrete environment serves the net load module by module in list order: each module gives or takes as much of what remains as its instantaneous limits allow, so that the action is feasible, is executed without clipping, and nothing is left unserved while a listed module could still serve it. The set of priority lists contains every order of the controllable modules with every genset on/off choice exactly once (minus redundant gensets when asked), and the default list is sorted by marginal cost.',
 ['inputs','configurations','histories'],'all loads, outputs, prices, states; all module mixes in the bound; all list indices',
 'Tests run the controller on fixed microgrids and compare aggregate logs.',
 ['algos/priority_list/priority_list.py','algos/priority_list/priority_list_element.py','algos/rbc/rbc.py','envs/discrete/discrete.py'],[('dispatch','algos/priority_list/priority_list.py:PriorityListAlgo._populate_action'),('lists','algos/priority_list/priority_list.py:get_priority_lists')],observe=['RuleBasedControl.run log','DiscreteMicrogridEnv.step'])
p('C17','Built-in trajectories always give valid episodes',
 'For every range of steps long enough to hold one and every random draw, the deterministic, stochastic and fixed-length stochastic trajectories return bounds inside the range with the initial step before the final step, of exactly the requested length where one is requested, so that resetting a microgrid with them never fails.',
 ['inputs','configurations'],'all initial/final steps up to the bound, all requested lengths, all random draws',
 'Tests use custom trajectory functions; the random ones are never drawn exhaustively.',
 ['microgrid/trajectory/stochastic.py','microgrid/trajectory/deterministic.py','microgrid/microgrid.py'],[('draws','microgrid/trajectory/stochastic.py')],observe=['trajectory call','Microgrid.reset'])
p('C18','Controls reach exactly the module they are addressed to',
 'Each controllable module of a microgrid receives exactly the control given under its name and position, independent of the order of modules and of dictionary keys; modules are grouped once each by source/sink and fixed/flex/controllable. Running a step does not modify the control passed in or the modules given at construction, a missing control is an error and an unknown one is ignored. Whether the control is a number, list, tuple or array makes no difference.',
 ['inputs','configurations'],'all controls and states, module orders and multiplicities in the bound',
 'Tests use at most one controllable module per name.',
 ['modules/module_container.py','microgrid/microgrid.py'],[('grouping','modules/module_container.py:get_subcontainers'),('dispatch of controls','microgrid/microgrid.py:Microgrid.run')],observe=['Microgrid.run info','Microgrid.modules'])
p('C19','Conversion to and from the non-modular microgrid keeps the parameters',
 'Converting between modular and non-modular microgrids preserves load, PV, grid prices, CO2 and status series, battery, genset, grid and cost parameters, so that converting there and back gives a microgrid with the same modules and the same behaviour.',
 ['inputs','configurations'],'all parameters and series for the architectures listed in the evidence',
 'Tests convert generated microgrids and compare a few attributes.',
 ['convert/convert.py','convert/get_module.py','convert/to_nonmodular_ops.py'],[('to modules','convert/get_module.py'),('to parameters','convert/to_nonmodular_ops.py')],observe=['Microgrid.from_nonmodular','Microgrid.to_nonmodular'])
p('C20','Model predictive control optimises the physical model',
 'At every step the optimisation problem that model predictive control builds admits exactly the schedules that respect energy balance, battery power and state-of-charge limits, genset on/off range, grid limits and outages, curtailment and lost-load limits over the horizon, starting from the current state and the current and forecast series, and its objective is their cost as the microgrid accounts it (fuel, CO2, import minus export revenue, battery cycling, lost load). The control applied is the first step of the solution and the microgrid executes it unclipped. (Batteries with the default transition model, gensets without start-up times.)',
 ['inputs','configurations'],'all parameters, states, load/PV/price/status forecasts for the horizons in the bound',
 'Tests run the solver on a few constant microgrids.',
 ['algos/mpc/mpc.py'],[('constraints','algos/mpc/mpc.py:_create_problem'),('parameters','algos/mpc/mpc.py:_set_parameters'),('control','algos/mpc/mpc.py:_extract_control_dict')],observe=['ModelPredictiveControl'])
p('C21','Sampled actions are in range and strict samples are feasible',
 'For every random draw a sampled action lies in the normalised action space, covers every controllable module, and with strict bounds the energy it asks for is within what the module can currently provide or absorb, so that executing it is never clipped.',
 ['inputs','configurations'],'all module parameters and states, all random draws',
 'Random draws are sampled at most a few times.',
 ['modules/base/base_module.py','modules/genset_module.py','microgrid/microgrid.py'],[('sampling','modules/base/base_module.py:sample_action')],observe=['sample_action'])
p('C22','Environment observations are the selected normalised state',
 'A reinforcement learning environment returns, after reset and after every step, exactly the normalised state of the microgrid: all components, or the requested observation keys in the declared order, flat or nested as configured, inside the declared observation space (also after the forecaster was changed), together with the reward, done flag and info of the underlying microgrid. After an action is removed from a discrete environment the remaining numbers stand for the remaining actions in order.',
 ['inputs','histories','configurations'],'all states and actions, key selections, flat or nested spaces',
 'Tests compare observations for fixed microgrids.',
 ['envs/base/base.py','envs/discrete/discrete.py','envs/continuous/continuous.py'],[('observation','envs/base/base.py:BaseMicrogridEnv._get_obs')],observe=['env.reset','env.step'])
p('C23','The legacy microgrid keeps its limits and accounts its costs',
 'Stepping the non-modular microgrid with any control keeps battery state of charge, charge/discharge power, genset and grid power within their limits, records production that sums to the load plus exports, charge and overgeneration minus loss load, and charges each component at its documented price; after train_test_split, training and testing episodes run over their own part of the series (values, forecasts, prices, end) and cancelling the split restores the whole.',
 ['inputs','histories','configurations'],'all parameters, states and controls for the listed architectures',
 'Tests compare a few runs against stored values.',
 ['_deprecated/non_modular_microgrid.py'],[('limits','_deprecated/non_modular_microgrid.py:_check_control/_record_production'),('costs','_deprecated/non_modular_microgrid.py:_record_cost')],observe=['NonModularMicrogrid.run'])
p('C24','Every randomly generated microgrid is well formed and sized to its load',
 'Whatever the random draws and the data files, MicrogridGenerator produces microgrids with pv, a battery and a grid or a genset (a weak grid always with a genset); the load peaks at its drawn size (100 to 100000) and pv at 30 to 150 % of it, both keeping the shape of the data; the battery holds 3 to 5 hours of mean load (rounded up), charges and discharges in 4 hours and starts within its state-of-charge limits; the genset carries the peak load at its maximum loading; the grid exchanges up to twice the peak; import prices follow one of the two documented tariffs hour by hour; outages last at least their duration; and records exist for exactly the components present.',
 ['inputs','configurations'],'all random draws and all data of the listed length',
 'Tests generate a few microgrids from one seed.',
 ['MicrogridGenerator.py'],[('architecture, sizing and initial state','MicrogridGenerator.py:MicrogridGenerator._create_microgrid/_size_mg/_get_battery/_get_grid'),('outages','MicrogridGenerator.py:MicrogridGenerator._generate_weak_grid_profile')],observe=['MicrogridGenerator.generate_microgrid'])
p('C25','Sampled scenarios are valid and stochastic control acts on the actual data',
 'Whatever the data and the random draws, forecasts and scenarios sampled from a non-modular microgrid have one value per step and series: grid statuses of 0 or 1 drawn with the transition (or mean) frequencies of the data; loads that are not negative, scattered around the mean of their weekday and hour with its standard deviation (a negative draw becomes the smallest load of the data); pv that is never negative, zero at night and otherwise a daily parabola whose peak is drawn between the fitted curves, with relative noise, pushed towards the data when asked. Sample average approximation plans every scenario at every step with the actual values of that step, applies the first control of the plan whose cost is at the requested percentile, and records the resulting productions, costs and following state.',
 ['inputs','configurations'],'all data values in the listed hours, all random draws, all fitted curves, all plans',
 'Tests only check the shapes of the noise generators and the learnt grid matrix on fixed data; SAA is never run.',
 ['utils/DataGenerator.py','algos/saa/saa.py','algos/Control.py'],[('pv','utils/DataGenerator.py:NoisyPVData'),('load','utils/DataGenerator.py:NoisyLoadData'),('grid','utils/DataGenerator.py:NoisyGridData'),('plan','algos/saa/saa.py:SampleAverageApproximation'),('cost and record','algos/Control.py:HorizonOutput/ControlOutput')],observe=['SampleGenerator.forecasts','SampleGenerator.sample_from_forecasts','SampleAverageApproximation.run_mpc_on_group'])
p('C26','Rule-based benchmarks of non-modular microgrids dispatch by priority',
 'The rule-based benchmark of a non-modular microgrid with a battery serves the load of every step by pv, then battery, then grid, then genset, each up to its limit, and takes the grid before the battery when exporting pays at least the import price times the squared efficiency; a connected genset runs within its limits, its minimum reserved when pv and battery do not suffice and no grid is up (alone at its minimum when that exceeds the load). Excess pv is charged, exported and curtailed by the same priority. The benchmark records the productions, costs, emissions and following states that running its controls yields and leaves the microgrid itself as it was; every requested benchmark is kept under its name; results compare by total cost, and shown as a frame they contain all records and stay unchanged.',
 ['inputs','histories','configurations'],'all parameters, series and states of charge for the listed architectures and steps',
 'Benchmarks and the rule-based control of the non-modular microgrid are never run by a test.',
 ['algos/rbc/_nonmodular_rbc.py','algos/Control.py'],[('priority dispatch','algos/rbc/_nonmodular_rbc.py:NonModularRuleBasedControl'),('results','algos/Control.py:ControlOutput'),('benchmarks','algos/Control.py:Benchmarks')],observe=['Benchmarks.run_rule_based_benchmark','Benchmarks.run_benchmarks','ControlOutput.to_frame'])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title'])); f.write(json.dumps(q)+'\n')
