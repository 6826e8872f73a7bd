import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b) for a,b in state],observe_at=list(obs))))
B='core/src/base/';K='core/src/bricks/';C='core/src/containers/';F='core/src/fluxes/';R='core/src/processes/';S='core/src/spatial/';A='core/src/actions/'

p('C01','A reset model starts again from exactly its initial state',
 'After a run, resetting a model puts every storage, flux amount, process memory, land-cover fraction, clock, action schedule and recorded result back to its initial (or last saved) state. A run after a reset therefore gives the same results as the first run, for every model structure.',
 ['histories','configurations'],'every sequence run/reset/run, for every composition of bricks, processes, fluxes, splitters and actions',
 'Tests reset one or two small structures and compare a few values; they cannot enumerate every stateful part of every composition.',
 [B+'ModelHydro.cpp',S+'SubBasin.cpp',S+'HydroUnit.cpp',K+'Brick.cpp',K+'Snowpack.cpp',K+'Glacier.cpp',K+'LandCover.cpp',C+'WaterContainer.cpp',R+'Process.cpp',F+'Flux.cpp',B+'Logger.cpp',B+'TimeMachine.cpp',A+'ActionsManager.cpp'],
 [('Reset cascade','ModelHydro::Reset -> SubBasin/HydroUnit/Brick/WaterContainer/Process/Flux::Reset'),('saved initial state','WaterContainer::SaveAsInitialState, LandCover::SaveAsInitialState')],
 [('storage contents','water, snow and ice held'),('process memories','routing stores, cold content, densities')],['results of a second run'])
p('C02','Saving the state as initial captures every storage it will later restore',
 'Saving the current state as the initial state makes a later reset return every storage of every brick, including snow and ice stores, and every land-cover fraction (with the flux weights that follow from it), to the values at the moment of saving. Saving itself changes no simulated quantity.',
 ['histories','configurations'],'every state reached before saving, every brick composition',
 'Tests save states of a couple of storages; the guarantee covers every store of every brick.',
 [B+'ModelHydro.cpp',S+'SubBasin.cpp',S+'HydroUnit.cpp',K+'Brick.cpp',K+'Snowpack.cpp',K+'Glacier.cpp',K+'LandCover.cpp',C+'WaterContainer.cpp'],
 [('save cascade','ModelHydro::SaveAsInitialState -> ... -> WaterContainer::SaveAsInitialState')],obs=['state after reset'])
p('C03','Spin-up leaves only warmed-up storages behind',
 'A run with a spin-up period records nothing, applies no action and no parameter change while warming up, and starts the recorded simulation at the first date with the forcing at its first value and the initial land-cover fractions. The actions and parameter changes are active again afterwards, also when the spin-up fails.',
 ['histories','configurations'],'every spin-up length, forcing set and action list',
 'Tests use few spin-up lengths and no failing spin-up.',
 [B+'ModelHydro.cpp',B+'TimeMachine.cpp',S+'SubBasin.cpp'],
 [('detach/attach','ModelHydro::RunSpinup'),('rewind','ModelHydro::RewindAfterSpinup')],obs=['recorded results'])
p('C04','Each time step computes, records once, then advances clock and forcing once',
 'A run processes every time step of the period in order: it computes the step with that date\'s forcing, records its results exactly once under that date, and only then advances the clock and every forcing series by one step. A failing step stops the run and is reported.',
 ['schedules','inputs'],'every period length and time step, every number of forcing series',
 'Tests compare aggregate discharges of short periods.',
 [B+'ModelHydro.cpp',B+'Logger.cpp',B+'TimeMachine.cpp'],
 [('run loop','ModelHydro::Run'),('cursor of records','Logger::Record, Logger::Increment'),('clock','TimeMachine::IncrementTime, IsOver')],obs=['dates and values in the results'])
p('C05','A failure inside the model is never reported as success',
 'When building, initialising, attaching forcing to, running a model, or writing its results detects a failure (invalid settings, missing data, failing solver, unwritable results), the caller of the public interface gets a failed result or an exception, never success.',
 ['inputs','fault_sequences','configurations'],'every internal failure point and every call chain up to the public interface',
 'Tests provoke a handful of failures; there are hundreds of call sites that can lose one.',
 [B+'ModelHydro.cpp',B+'ModelBuilder.cpp',B+'Processor.cpp',B+'Solver.cpp',S+'SubBasin.cpp',B+'ResultWriter.cpp',B+'Logger.cpp','core/bindings/Binding.cpp'],
 [('result types','ModelResult/bool returns checked at each call site')],obs=['return values, exceptions'])
p('C06','Changing a land cover area keeps the water and a full set of fractions',
 'When the area fraction of a land cover changes, the water, snow and ice stored over the hydro unit (depth times area fraction, summed over the covers) are the same before and after, whichever cover grows (the ice of a shrinking glacier excepted, which is left to the glacier evolution), and the fractions still sum to one and stay within 0 and 1. A change that cannot be compensated is refused and leaves the fractions untouched.',
 ['histories','inputs'],'every fraction pair, cover type and content',
 'Tests cover selected fraction pairs and contents.',
 [S+'HydroUnit.cpp',K+'LandCover.cpp',A+'ActionLandCoverChange.cpp'],
 [('content transfer','HydroUnit::TransferLandCoverContent before SetAreaFraction'),('fraction total','HydroUnit::FixLandCoverFractionsTotal')],obs=['contents, fractions'])
p('C07','Scheduled actions are applied exactly once, on their date, in date order',
 'Every dated item of every action is applied exactly once in a run, by the first advance of the clock that reaches or passes its date (items dated up to the start of the period by the first advance), and dated items are applied in chronological order whatever the order in which actions and items were added, also when several share a date and also in a further run. A yearly action is applied once for each of its dates that the run passes after its start, whatever the time step. An action that fails stops the run, which is reported.',
 ['schedules','histories'],'every interleaving of actions and dates',
 'Tests add a few actions in a few orders.',
 [A+'Action.cpp',A+'ActionsManager.cpp',A+'ActionLandCoverChange.cpp',B+'TimeMachine.cpp'],
 [('merged schedule','ActionsManager::AddAction, DateUpdate'),('cursors','Action::Apply, Action::Reset')],obs=['land cover fractions over time'])
p('C08','A land cover or store with no area neither receives nor yields water',
 'A brick whose area fraction is zero takes no part in a time step: it takes no input, applies no change, and delivers no water to the other bricks or to the outlet, and it does not disturb the computation of the bricks that have an area.',
 ['configurations','histories'],'every arrangement of zero-area bricks among the others and every step at which one becomes zero',
 'Tests have few structures with zero-area bricks and never between others.',
 [B+'Processor.cpp',B+'Solver.cpp',K+'LandCover.h',K+'SurfaceComponent.h'],
 [('null bricks skipped','Processor::ProcessTimeStep, ApplyRates, FinalizeTimeStep; Brick::IsNull')],obs=['storages, discharge'])
p('C09','Structures that break the two-phase computation order are refused',
 'A model structure in which a brick integrated by the solver would feed, within the same step, a brick computed directly before the solver is refused at initialisation with an explanatory error, for every unit and every flux.',
 ['configurations','programs'],'every model structure',
 'Tests contain a single refused structure.',
 [B+'Processor.cpp'],[('topology validation','Processor::Initialize -> ValidateFluxTopology')],obs=['initialisation result'])
p('C10','Every process declares and receives exactly the parameters it uses',
 'For every process kind a user can select, each parameter its computation reads is declared with that name, taken from the setting of the same name and updated with it, and each forcing it reads is declared, attached and checked for presence. No process takes its value from another parameter or forcing.',
 ['configurations','inputs'],'every process kind, parameter and forcing',
 'Tests use one or a few kinds per test and rarely distinguish the parameters of a kind.',
 [R+'Process.cpp']+[R+x for x in ('ProcessETPowerLaw.cpp','ProcessMeltCemaNeige.cpp','ProcessPercolationGR4J.cpp','ProcessRoutingGR6J.cpp')],
 [('registry','Process::Factory / RegisterParametersAndForcing table'),('pointers','Process::GetParameterValuePointer, AttachForcing, IsValid')],obs=['simulated values, initialisation errors'])
p('C11','Each process computes its documented rate law',
 'For every process kind, the rate delivered to each of its outputs is the documented function of storage content, parameters, forcing and area fraction, in every regime (empty and full stores, thresholds, freezing and melting, zero demand), and it is never negative or undefined where that law is not.',
 ['inputs'],'all values of contents, parameters and forcings, in every branch of the law',
 'Tests sample a few values in some regimes of some processes.',
 [R+'ProcessOutflowLinear.cpp',R+'ProcessETHBV.cpp',R+'ProcessMeltDegreeDay.cpp',R+'ProcessRunoffHBV.cpp',R+'ProcessInfiltrationHBV.cpp',R+'ProcessETSocont.cpp'],
 [('rate laws','Process*::GetRates')],obs=['fluxes'])
p('C12','Storage bookkeeping conserves water',
 'Within a time step a store\'s content changes by exactly the amounts its fluxes bring in minus the amounts its processes take out, every amount being booked once and with the right sign, and pending amounts are cleared when the step is closed. Content is never created by enforcing the bounds other than removing rounding residues.',
 ['histories','inputs'],'every flux arrangement and sequence of steps',
 'Tests check the balance of selected structures over some periods.',
 [C+'WaterContainer.cpp',C+'SnowContainer.cpp',C+'IceContainer.cpp',R+'Process.cpp',K+'Brick.cpp',K+'Glacier.cpp',K+'Snowpack.cpp',F+'Flux.cpp'],
 [('ledger','WaterContainer::Add*/Subtract*/Finalize'),('booking','Process::ApplyChange, Brick::UpdateContentFromInputs')],[('content','water held'),('dynamic/static change','pending amounts of the step')],['storage contents'])
p('C13','No store can be overdrawn or overfilled by the rates that are applied',
 'Rates leaving or entering a store are limited, before they are applied, so that over the step its content stays between zero and its capacity: withdrawals shrink to the water available, excess goes to the overflow where there is one, and otherwise the inputs are reduced. All solver methods apply only limited rates.',
 ['inputs','configurations'],'all rates, contents, capacities, time steps, and every solver',
 'Tests exercise constraint clamping with a few rates.',
 [C+'WaterContainer.cpp',B+'Processor.cpp',B+'Solver.cpp'],
 [('limits','WaterContainer::ApplyConstraints, HandleOverfill...'),('constrained evaluation','Processor::EvaluateRates/ConstrainRates')],obs=['storage contents'])
p('C14','Solver steps use the right stage states and apply one change',
 'Each solver method evaluates its stages on the intended intermediate states, restores the state in between, combines the stage rates with weights that sum to one, and applies and closes the step exactly once for all bricks. The result does not depend on leftovers of the previous step.',
 ['inputs','histories'],'every solver method, structure and step',
 'Tests compare a few runs with loose tolerance.',
 [B+'SolverEulerExplicit.cpp',B+'SolverHeunExplicit.cpp',B+'SolverRK4.cpp',B+'SolverSequential.cpp',B+'Solver.cpp'],
 [('stages','Solver*::Solve')],obs=['storages after a step'])
p('C15','Water moved between areas is scaled by the area it covers',
 'A flux leaving a land cover, a surface component or a hydro unit is weighted by the area fraction of its origin, so that depths over different areas add up to the right volume at the receiver and at the outlet, and every weight is updated when a fraction changes. Equal fractions give equal weights regardless of how often and in what order they were set.',
 ['configurations','histories'],'every flux kind and every sequence of fraction changes',
 'Tests use fixed fractions in simple structures.',
 [F+'Flux.cpp',F+'FluxToBrickInstantaneous.cpp',B+'ModelBuilder.cpp',K+'LandCover.cpp',K+'SurfaceComponent.cpp',S+'SubBasin.cpp'],
 [('fraction product','Flux::UpdateFractionTotal'),('propagation','LandCover/SurfaceComponent::SetAreaFraction')],obs=['outlet discharge'])
p('C16','Each recorded series holds the quantity its label names',
 'Every value recorded during a run is stored under the label, hydro unit and date it belongs to: label lists, value pointers and record slots stay in the same order and number for basin items, hydro unit items and land cover fractions. Aggregations over the basin weight each unit by its area.',
 ['configurations'],'every set of recorded items and units',
 'Tests record one or two items.',
 [B+'Logger.cpp',B+'ModelBuilder.cpp',B+'SettingsModel.cpp'],
 [('slots','Logger::InitContainers, Set*ValuePointer, Record'),('connection','ModelBuilder::ConnectLoggerToValues')],obs=['recorded arrays, result file'])
p('C17','The results file contains what was recorded, in the layout its reader expects',
 'The written file holds the dates, unit identifiers, areas, basin values, unit values and land cover fractions that were recorded, each variable with the dimensions, order and labels under which the results reader looks it up.',
 ['configurations'],'every set of recorded items, and the pair writer/reader',
 'No test reads a written file with the Python reader.',
 [B+'ResultWriter.cpp',B+'FileNetcdf.cpp','python/src/hydrobricks/results.py'],
 [('writer','ResultWriter::WriteNetCdf'),('reader','python Results')],obs=['netCDF file'])
p('C18','Output and input files are always released and their errors reported',
 'A data file opened for reading or writing is closed on every path, including when an operation fails, and any failing file operation is reported to the caller rather than ignored or ending the process.',
 ['fault_sequences'],'every failing file operation',
 'Tests do not inject file errors.',
 [B+'FileNetcdf.cpp',B+'ResultWriter.cpp',S+'SubBasin.cpp',B+'SettingsBasin.cpp',B+'TimeSeries.cpp'],
 [('handle ownership','FileNetcdf'),('status check','FileNetcdf::CheckNcStatus')],obs=['files, exceptions'])
p('C19','Independent models can run concurrently without affecting each other',
 'Running, resetting, or dumping one model never reads or writes state shared with another model, except for the message log, which is protected. Results of a model do not depend on whether other models run in parallel.',
 ['schedules'],'every interleaving of two or more models',
 'Tests run models one after the other.',
 [B+'ModelHydro.cpp',B+'Log.cpp',B+'GlobVars.cpp','core/bindings/Binding.cpp'],
 [('no shared mutable storage','all code reachable from ModelHydro::Run'),('log protected','base/Log.cpp')],obs=['results of concurrent runs'])
p('C20','Forcing values are taken from the record of the simulated date',
 'Positioning a forcing series at a date selects the record of exactly that date for any time step, each advance moves one record, and positioning or advancing outside the records is refused rather than reading beyond the data. Series that do not cover the modelled period are refused.',
 ['inputs','configurations'],'every start date, time step and length of series',
 'Tests use daily series that start with the run.',
 [B+'TimeSeriesData.cpp',B+'TimeSeriesDistributed.cpp',B+'TimeSeriesUniform.cpp',B+'ModelHydro.cpp',B+'TimeSeries.cpp'],
 [('cursor','TimeSeriesData::SetCursorToDate, AdvanceOneTimeStep'),('coverage','ModelHydro::AddTimeSeries')],obs=['forcing values of a step'])
p('C21','Updating parameters reaches every part that uses them',
 'After parameters were changed in the settings, updating the model applies the new values to every brick, process and splitter at basin and hydro unit level, for every structure, without rebuilding, so that the next run equals that of a model built with the new values.',
 ['configurations','histories'],'every structure and parameter',
 'Tests update a few parameters in one structure.',
 [B+'ModelBuilder.cpp',B+'SettingsModel.cpp',B+'ModelHydro.cpp'],
 [('update pass','ModelBuilder::UpdateSubBasinParameters, UpdateHydroUnitsParameters'),('setting','SettingsModel::SetParameterValue')],obs=['results after update'])
p('C22','Composite stores treat all of their contents in every operation',
 'Bricks holding more than one store (water and snow in a snowpack, water and ice in a glacier) save, reset, initialise, limit, update, close, and report both stores in every operation, and hand out the store that was asked for.',
 ['configurations','histories'],'every operation on every brick kind',
 'Tests touch some operations on some of the bricks.',
 [K+'Snowpack.cpp',K+'Glacier.cpp',K+'Brick.cpp'],
 [('overrides','Snowpack::*, Glacier::*')],obs=['contents'])
p('C23','Missing forcing or parameters are reported before use',
 'A model in which a process or splitter lacks a forcing, parameter or connection it reads is refused when it is initialised, and a run that needs a forcing for which no data were given does not succeed, so that no computation ever uses an absent input. Asking for an unsupported forcing or parameter raises an error that names it.',
 ['configurations'],'every process and splitter kind, every combination of available forcings',
 'Tests always provide complete models.',
 [R+'Process.cpp',F+'Splitter.cpp',F+'SplitterRain.cpp',R+'ProcessMeltTemperatureIndex.cpp',S+'HydroUnit.cpp',B+'ModelHydro.cpp'],
 [('validity','Process::IsValid / Splitter::IsValid called from SubBasin::IsValid')],obs=['initialisation result'])
p('C24','Precipitation splitting conserves precipitation',
 'For any temperature and precipitation, the rain and snow delivered by each precipitation splitter are not negative and sum to the (corrected) precipitation received, below, within and above the transition range; unit-wide fluxes are distributed over all their outputs without loss.',
 ['inputs'],'all precipitation, temperature and parameter values',
 'Tests sample temperatures.',
 [F+'SplitterSnowRainLinear.cpp',F+'SplitterSnowRainThreshold.cpp',F+'SplitterSnowRainCemaNeige.cpp',F+'SplitterRain.cpp',F+'SplitterMultiFluxes.cpp'],
 [('split','Splitter*::Compute')],obs=['rain and snow fluxes'])
p('C25','The basin outlet collects every outlet flux exactly once',
 'The discharge at the outlet of a time step is the sum of all fluxes directed to the outlet, from the basin-level stores and from all hydro units, each weighted by its area share, counted once and computed anew at each step.',
 ['configurations','histories'],'every structure and number of units',
 'Tests have few units and outlets.',
 [S+'SubBasin.cpp',B+'ModelBuilder.cpp',F+'FluxToOutlet.cpp'],
 [('collection','SubBasin::ComputeOutletDischarge, AttachOutletFlux')],obs=['outlet discharge'])
p('C26','Hydro unit properties are delivered in the unit that is asked for',
 'A hydro unit property given in any accepted unit (angles, slopes, lengths) is returned in the unit requested by the caller with the right conversion, and a unit that cannot be converted is refused.',
 ['inputs'],'all units and values','Tests convert some pairs.',
 [S+'HydroUnitProperty.cpp',B+'SettingsBasin.cpp'],[('conversion','HydroUnitProperty::GetValue')],obs=['property values'])
p('C27','Names in settings map to the same thing everywhere',
 'Every name a user can give for a brick, process, flux, splitter, forcing, content, storage or solver maps to one kind, the same one wherever the name is interpreted, printed or validated; unknown names are refused.',
 ['configurations'],'every name in every table','Tests use a few names.',
 [B+'SettingsModel.cpp',B+'TimeSeries.cpp',B+'Solver.cpp',B+'ContentTypes.cpp',K+'BrickTypes.cpp',F+'Splitter.cpp','core/bindings/Binding.cpp'],
 [('tables','Add*Forcing, MatchVariableType, Solver::Factory, ContentTypeFromString, BrickTypeFromString')],obs=['model built, errors'])
p('C28','Python parameter and model definitions agree with the simulation core',
 'Every process kind, splitter kind, solver and parameter name used by the Python package exists in the core under that name, every parameter a core process requires can be set from Python, and what the package calls on the extension module is bound to the core.',
 ['configurations','programs'],'every preset model and process specification','The Python package is not exercised by the core tests.',
 ['python/src/hydrobricks/parameters.py','python/src/hydrobricks/models/model.py',R+'Process.cpp'],
 [('specifications','PROCESS_PARAM_SPECS'),('registry','Process registration table')],obs=['errors when building models from Python'])
p('C29','Snow redistribution between units conserves snow',
 'Snow moved from a hydro unit to its lower neighbours leaves the donor in the amount that arrives at the receivers once converted by the areas of the units and covers, it is shared by the connection weights, and units without a receiver keep their snow or pass it as defined.',
 ['configurations','inputs'],'every connection network, area and slope','Tests use two or three units.',
 [R+'ProcessLateral.cpp',R+'ProcessLateralSnowSlide.cpp',R+'ProcessLateralSnowRedistributionFrey.cpp',S+'HydroUnitLateralConnection.cpp',S+'SubBasin.cpp'],
 [('distribution','ProcessLateral*::GetRates, ComputeFractionAreas')],obs=['snow storage per unit'])
p('C30','Land cover and glacier actions update area and content together',
 'Glacier evolution and snow-to-ice actions change areas and ice contents consistently: the ice and area set come from the same look-up step of the given tables, snow turned into ice leaves the snowpack in the amount that the glacier gains, and the tables are never read outside their extent.',
 ['inputs','histories'],'every table, content and date','Tests use one table.',
 [A+'ActionGlacierEvolutionDeltaH.cpp',A+'ActionGlacierEvolutionAreaScaling.cpp',A+'ActionGlacierSnowToIceTransformation.cpp'],
 [('table look-up','ActionGlacierEvolution*::Apply'),('transfer','ActionGlacierSnowToIceTransformation::Apply')],obs=['glacier area and ice, snow'])
p('C31','The simulated period has exactly as many steps as recorded',
 'For every start, end and time step, the number of steps allotted to the results equals the number of steps the simulation makes, so that no result is lost and nothing is written beyond the results.',
 ['inputs'],'all periods and time steps','Tests use daily steps.',
 [B+'TimeMachine.cpp',B+'Logger.cpp',B+'ModelHydro.cpp'],
 [('step count','TimeMachine::GetTimeStepCount vs IsOver')],obs=['length of results'])
p('C32','A store\'s overflow is connected however it is named',
 'A store declared with a capacity and an overflow sends the excess through that overflow, whichever of the accepted names was used to declare it; without overflow the inputs are limited.',
 ['configurations'],'every accepted declaration','Tests use one spelling.',
 [B+'ModelBuilder.cpp',C+'WaterContainer.cpp',R+'ProcessOutflowOverflow.cpp',R+'Process.cpp'],
 [('link','ModelBuilder (overflow link), WaterContainer::LinkOverflow')],obs=['overflow flux'])
p('C33','GR4J and GR6J reproduce the published models',
 'The GR4J and GR6J structures give the discharge of the published reference formulations within the numerical tolerance.',
 ['inputs','histories'],'all forcing series and parameters','Tests compare a reference series.',
 [R+'ProcessRoutingGR4J.cpp',R+'ProcessRoutingGR6J.cpp',R+'ProcessProductionGR4J.cpp'],[('routing','ProcessRoutingGR*::GetRates')],obs=['discharge'])
p('C34','Solvers converge to the exact solution as the time step shrinks',
 'For smooth rate laws, each solver\'s error vanishes with the time step at its nominal order.',
 ['inputs'],'all rate laws and steps','Tests compare a few steps.',
 [B+'SolverRK4.cpp',B+'SolverImplicitEuler.cpp'],[('integration','Solver*::Solve')],obs=['storage'])
p('C35','Calendar dates are interpreted as the calendar date they denote',
 'Every valid date string and modified Julian date converts to the same instant and back.',
 ['inputs'],'all dates','Tests sample dates.',
 [B+'UtilsDateTime.cpp'],[('conversion','ParseDate, GetMJD, GetTimeStructFromMJD')],obs=['dates'])
p('C36','The model is fast enough for calibration',
 'A daily simulation of a decade with dozens of units completes in seconds, with work proportional to the number of steps and units.',
 ['inputs'],'all structures','No performance tests.',
 [B+'Processor.cpp'],[('hot loop','Processor::ProcessTimeStep')],obs=['time'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
