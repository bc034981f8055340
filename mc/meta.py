"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, I, P, H, C = 'schedules', 'inputs', 'programs', 'histories', 'configurations'
PROPS = []
SRC = 'src/repast4py/'


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note))


prop('C01', 'Every scheduled event runs exactly when due, in the documented order',
     'An event scheduled for a tick that is not in the past executes exactly once at that tick, or, when repeating, at that tick and every '
     'interval after it, unless it is voided or the simulation is stopped first; nothing else executes, and the tick count never decreases. '
     'Within a tick all FIRST events precede the other ones and all LAST events follow them (each group in the order of scheduling), events with a '
     'numeric priority run in order of priority, and events of random order are shuffled among them. '
     'This holds for events added, voided or stopped by executing events too, and end events run once, after the last tick, in the order they were added.',
     [P, H, I], 'all programs of up to 4-5 scheduling calls over ticks, intervals and priority types, made before the run or from inside executing events, '
     'with every outcome of the random order enumerated', 'the tests run a few fixed programs; the order depends on interactions of priorities, '
     'repeated events, events added while the same tick executes and random placement',
     [SRC + 'schedule.py'], [('event queue and per-tick re-sorting', SRC + 'schedule.py Schedule/SharedScheduleRunner'),
                             ('scheduled events and voiding', SRC + 'schedule.py ScheduledEvent')],
     ['calls of the scheduled callables and the tick at that time'],
     'stateless exhaustive exploration of scheduling programs on the real scheduler against a reference queue, random draws replaced by enumerated choices',
     'all programs up to a length bound, every random placement; no sampling')
prop('C02', 'All ranks execute the same tick in lockstep and end together',
     'No rank executes an event of a tick while another one still has to execute an event of an earlier tick, whatever events each rank has scheduled '
     '(none included). All ranks reach the end of the simulation when the stop tick scheduled on them has been reached or no rank has any event left, '
     'and each then executes its end events; nobody waits forever.',
     [S, P, C], 'all assignments of event programs to 2-3 ranks (including empty ones, fractional ticks, events added while running) with every stop variant, all interleavings of the '
     'collective operations being equivalent by construction and explored where they are not', 'the tests use one or two schedules on real MPI processes; '
     'which rank is ahead or has nothing scheduled is not varied',
     [SRC + 'schedule.py'], [('agreement on the next tick', SRC + 'schedule.py SharedScheduleRunner.execute')],
     ['global order of executed events; termination on all ranks'],
     'stateless exhaustive exploration of multi-rank programs of the real scheduler on a simulated communicator that detects deadlock and mismatched collectives',
     'all pairs and triples of the listed programs')
prop('C03', 'Agents that move to another rank arrive there once, intact',
     'After a synchronization every agent is local on exactly one rank, the one whose part of the space contains its location, with the state '
     'and the location it had in every space; and it is gone from all the spaces and the local agents of its former rank (where it may remain only as a ghost). '
     'An agent explicitly moved to a rank becomes local there and nowhere else. The number of agents, overall and per rank, is what the moves imply, '
     'with one or several spaces, over any number of synchronizations.',
     [H, C, S], 'all histories of moves over 1-3 synchronizations of 1-2 agents to every cell (corners and over the border included), for 2-6 ranks in 1D-3D, periodic and sticky, '
     'grid, continuous space or both, new or cached restore functions', 'tests make a few moves of two agents on 4-9 ranks',
     [SRC + 'context.py', SRC + 'space.py', SRC + 'core.py', SRC + 'distributed_space.h'],
     [('out of bounds detection', SRC + 'distributed_space.h'), ('agent exchange', SRC + 'context.py synchronize/move_agents'), ('projection hooks', SRC + 'space.py')],
     ['agents(), agent(), size(), get_location, get_agents on each rank after synchronize'],
     'explicit exploration of all move/synchronize histories within bounds on the real contexts and spaces of all ranks against a reference model',
     'every history within the bounds is executed on the real code')
prop('C04', 'Ghost buffers mirror the neighbouring ranks after synchronization',
     'After a synchronization a rank\'s spaces contain, besides its local agents, exactly the agents of other ranks whose location lies within the '
     'buffer distance of the rank\'s local bounds (across periodic borders too), as ghosts with the current state and location of the agent and the rank '
     'where it is local. Ghosts whose agent has moved out of the buffer, moved to this rank or was removed are gone.',
     [H, C], 'all histories of up to 3 synchronizations of 1-2 agents over all cells, buffers of 0 to the local extent, 2-6 ranks, 1D-3D, both borders, grid, continuous space or both',
     'tests check a few positions in one or two layouts', [SRC + 'space.py', SRC + 'context.py', SRC + 'core.py'],
     [('buffer exchange', SRC + 'space.py _synch_ghosts'), ('ghost bookkeeping', SRC + 'core.py AgentManager'), ('topology', SRC + 'space.py CartesianTopology')],
     ['ghost_agent, get_agents, get_location on every rank'],
     'explicit exploration of all move/synchronize histories within bounds on the real code against a reference model',
     'every history within the bounds is executed on the real code')
prop('C05', 'Ghosts follow their agent and disappear only with their reason',
     'An agent requested from another rank exists on the requesting rank as a ghost with its current state from the request on, and every later synchronization '
     'gives the ghost the agent\'s state and rank, also after the agent has moved between other ranks or left a buffer. '
     'When the agent is removed, the next synchronization removes its ghosts from every rank and projection, and requesting, moving, removing and buffering in any order never leaves a stale or duplicate agent behind.',
     [H, C], 'all histories of up to 3-4 steps of requesting, moving (by location or explicitly), changing, adding and removing agents on 2-4 ranks, with and without spaces and buffers',
     'tests request agents once in a fixed situation', [SRC + 'context.py', SRC + 'core.py', SRC + 'space.py'],
     [('requests', SRC + 'context.py request_agents'), ('ghost bookkeeping', SRC + 'core.py AgentManager'), ('removal', SRC + 'context.py _update_removed_ghosts')],
     ['ghost_agent(), state and local_rank of ghosts, contents of projections'],
     'explicit exploration of all request/move/remove histories within bounds on the real code against a reference model',
     'every history within the bounds is executed on the real code')
prop('C06', 'Shared networks have the same edges and attributes on all ranks involved',
     'After a synchronization each rank\'s network contains exactly the edges in which one of its local agents takes part, with the attributes last set, '
     'the agent at the other end being the current ghost, or the local agent. This holds whichever of the two ranks adds, updates or removes an edge, and after agents are removed '
     'or move to other ranks - by location or explicitly, one or several at once, with edges just added or removed - in directed and undirected networks, '
     'with requested or buffered ghosts, several networks and spaces. Agents no longer linked are no longer ghosts (unless requested or buffered) and linked ones are kept up to date.',
     [H, C], 'all histories of 1-5 synchronizations of adding, updating, removing, clearing edges, removing and moving agents, for 2-4 agents on 2-4 ranks; all sets of edges with all simultaneous moves of all agents',
     'the tests add, update and remove edges on the rank that created them, and move one agent at a time', [SRC + 'network.py', SRC + 'context.py', SRC + 'core.py'],
     [('edge synchronization', SRC + 'network.py SharedNetwork'), ('moved agents', SRC + 'network.py _agent_moving_rank/_agents_moved_rank')],
     ['graph.edges, contains_edge, num_edges, edge_count, ghost_agent'],
     'explicit exploration of all edge/move/removal histories within bounds on the real networks and contexts of all ranks against a reference edge map', 'every history within the bounds is executed on the real code')
prop('C07', 'A context holds exactly the agents and projections added to it',
     'After any sequence of add, remove, add_projection and queries a context\'s agents(), agents of a type, agent(id), size(), contains_type and shuffled or '
     'partial enumerations give exactly the agents added and not removed, each once, in the order added when not shuffled, any permutation '
     'being possible when shuffled. Adding an agent adds it to every projection, removing it removes it from every projection '
     'and buffer, and adding a projection gives it all the agents already there.',
     [H, I], 'all sequences of 6-8 operations on three or four agents of two types with zero to four projections (grid, continuous space, networks); all shuffles with every count',
     'tests add and remove a few agents in one fixed order', [SRC + 'context.py', SRC + 'core.py'],
     [('local agents by type and projections', SRC + 'context.py SharedContext')], ['agents, agent, size, contains_type, projections\' contents'],
     'exhaustive exploration of operation sequences on the real context against a reference list; every outcome of the shuffle enumerated', 'all sequences within the bound')
prop('C08', 'The topology divides the space into disjoint areas with exact buffers',
     'The local bounds of the ranks are disjoint, cover the global bounds exactly and evenly, and agree with the coordinates of each rank. '
     'For any buffer size the areas a rank shares with its neighbours are exactly the cells of its local bounds that lie within the buffer distance of the '
     'neighbour\'s local bounds, across periodic borders too. A random local point may be any point of the local bounds, and no other.',
     [C, I], '1-12 (16) ranks in 1D-3D, both border types, extents around the multiples of the number of ranks per dimension (remainders), several origins, buffers 1-3',
     'tests check selected layouts of 4, 8, 9 and 18 ranks', [SRC + 'space.py'],
     [('cartesian topology', SRC + 'space.py CartesianTopology')], ['local_bounds, coordinates, compute_buffer_nghs, get_local_bounds, get_random_local_pt'],
     'explicit enumeration of all layouts within bounds, real topology code of every rank checked cell by cell',
     'enumeration of configurations; each configuration is decided cell by cell')
prop('C09', 'A grid or continuous space tells what its operations imply',
     'After any sequence of adding, removing and moving agents, with single or multiple occupancy and either border type, a space reports for each agent '
     'the location it was last successfully moved to (none if it was never moved), for each location exactly the agents there, and contains exactly the agents added and not removed. '
     'A move to an occupied location of a single occupancy space is refused and changes nothing, and a successful move returns the resulting location.',
     [H, I, C], 'all sequences of up to 4-5 operations on three agents, 1D-3D, both borders and occupancies, local and shared grids and continuous spaces',
     'tests use a few fixed sequences', [SRC + 'space.h', SRC + 'grid.h', SRC + 'cspace.h', SRC + 'occupancy.h', SRC + 'distributed_space.h', SRC + 'space.py'],
     [('location maps', SRC + 'space.h'), ('occupancy', SRC + 'occupancy.h')],
     ['add, remove, move, get_location, get_agent(s), get_num_agents, contains'],
     'exhaustive exploration of operation sequences on the real spaces against a reference map', 'all sequences within the bound')
prop('C10', 'Box queries of a continuous space return exactly the agents inside',
     'A query for the agents within a bounding box (lower borders inclusive, upper ones exclusive) returns exactly the agents of the space whose location is within it, '
     'each once, after any sequence of moves and removals and for any tree threshold, including coincident agents and agents on the borders of tree cells.',
     [H, I], 'all placements and move/removal sequences of 4 agents on border, split-plane and interior points in 1D-3D, thresholds 1-2, a family of boxes',
     'tests query a handful of boxes', [SRC + 'SpatialTree.cpp', SRC + 'SpatialTree.h', SRC + 'cspace.h'], [('tree index', SRC + 'SpatialTree.cpp')],
     ['get_agents_within'], 'exhaustive exploration of operation sequences on the real space, every box compared with a direct filter', 'all sequences within the bound')
prop('C11', 'Borders map every coordinate into the bounds',
     'A sticky border clamps a coordinate beyond the bounds to the nearest valid one, a periodic border maps it to the congruent one; a coordinate within the bounds is unchanged, '
     'every result lies within the bounds, and an unused dimension stays at its origin. This holds for grids and continuous spaces of any origin and size.',
     [I, C], 'all integers within several extents around 11 boxes in 1D-3D (and far ones); for continuous spaces the doubles on and next to every border and multiple of the extent, large spaces included',
     'tests check a few values around one box', [SRC + 'borders.h', SRC + 'space.cpp'], [('border transforms', SRC + 'borders.h')],
     ['locations after move'], 'explicit enumeration of coordinates against exact rational arithmetic', 'finite but boundary-complete set of inputs')

prop('C12', 'Neighbourhoods are the points at most one step away within the borders',
     'find_1d/2d/3d_nghs_sticky and _periodic return, for every point within the bounds, exactly the points that differ by at most one in each used dimension '
     '(the point included): those within the bounds for sticky borders, the wrapped ones for periodic borders; in x, y, z order or reversed when asked for in pytorch order. The argument is not changed, and '
     'the number of dimensions of a bounding box is that of its non-zero extents.',
     [I, C], 'every point of every box with extents 1-7 (1D), 1-5 (2D), 1-4 (3D) at three origins, both borders, both orders',
     'tests check a few corner and interior points of one box', [SRC + 'geometry.py'], [('neighbourhood functions', SRC + 'geometry.py')],
     ['results of find_*_nghs_*, get_num_dims'], 'explicit enumeration of all boxes and points within bounds on the real (compiled) functions against a direct definition', 'complete enumeration within the bounds')
prop('C13', 'A value layer stores one value per cell of its bounds',
     'A ValueLayer holds one value per cell of its bounds, whatever their origin: get returns what was last set there (initially the given value, or one from [0, 1) '
     'when random), set changes that cell only, coordinates beyond the bounds are clamped or wrapped according to the border type, and get_nghs '
     'returns the cells at most one step away with their values in the same order. The tensor shows the cells in z, y, x order.',
     [H, I, C], 'nine boxes in 1D-3D with various origins, both borders, two types; two sets at any of the interior, border and far points, then every cell and neighbourhood',
     'tests check a few cells of one layer', [SRC + 'value_layer.py', SRC + 'geometry.py'],
     [('indices and borders', SRC + 'value_layer.py ValueLayer, Impl1D-3D')], ['get, set, get_nghs, grid'],
     'exhaustive exploration of set sequences over boundary-complete points on the real layer against a dictionary', 'complete enumeration within the bounds')
prop('C14', 'Shared value layers show the neighbours\' values after synchronization',
     'After a synchronization (directly or through the context) every rank of a SharedValueLayer sees in its buffer, across periodic borders too, exactly the current values '
     'of the ranks owning those cells, and its own cells are unchanged; get_nghs and the tensor agree. A ReadWriteValueLayer reads the values written before the last swap, '
     'writes become visible at the swap, and both layers are synchronized.',
     [H, C], '1-9 (16) ranks in 1D and 2D, extents with remainders, two origins, both borders, buffers 0-3, two types, histories of set, synchronize, swap and writes to the buffer',
     'tests check a few cells of 4 and 9 ranks with one extent', [SRC + 'value_layer.py', SRC + 'space.py'],
     [('buffer exchange', SRC + 'value_layer.py SharedValueLayer._synch_ghosts'), ('swapping', SRC + 'value_layer.py ReadWriteValueLayer')],
     ['get, get_nghs, grid on every cell of the local bounds and buffer of every rank'],
     'explicit enumeration of layouts and histories on the real layers of all ranks against a reference function of the cell', 'complete enumeration within the bounds')
prop('C15', 'A schedule restored from a checkpoint continues as the saved one',
     'After save_schedule and restore_schedule (in the same or another process) exactly the events pending at the save are pending again - those still to execute in the tick '
     'in which an event saved the checkpoint, repeats of that event and end events included, voided ones not - and each executes when it was due, in the documented order, '
     'with its metadata. The tick is that of the save, and with the same random state the simulation continues exactly as the original did after the save. '
     'Events with another tag, ignored ones, and stops unless asked for are left out; events scheduled later are ordered after the restored ones. '
     'restore_random makes the default generator produce the same numbers again as after save_random, and the saved state is not affected by what happens afterwards.',
     [P, H, I], 'all programs of 2-3 events over ticks, priorities, intervals and actions (adding, voiding, saving), saved between ticks, by an event of any priority, or by an end event; '
     'restored in several ways; every random placement', 'tests save a few schedules with one kind of event between ticks, or alone in a tick',
     [SRC + 'checkpoint.py', SRC + 'schedule.py'], [('saving and restoring events', SRC + 'checkpoint.py save_schedule/restore_schedule'),
                                                    ('pending events of a tick', SRC + 'schedule.py ScheduleGroup')],
     ['calls of the scheduled callables, arguments of the event creator and processor, random numbers'],
     'stateless exhaustive exploration of scheduling programs, saved and restored on the real code, against a reference queue and the uninterrupted run, random draws replaced by enumerated choices',
     'all programs within the bounds, every random placement')
prop('C16', 'Agents, spaces and networks are restored from a checkpoint as saved',
     'When each rank restores the agents, spaces and networks of its checkpoint and the context is synchronized, every rank has the same local agents with the same state, order and location '
     '(none if it had none), the same ghosts of buffers and network edges, and the same edges with the same attributes, directed or not, as when they were saved, '
     'and they behave so from then on. What has been saved is not changed by what the simulation does afterwards. Restoring a network whose agents are missing is an error.',
     [H, C], 'all histories of edges, moves (by location or explicit) and a checkpoint - pickled or in memory, restored at once or after another step - followed by any operation, '
     'with one to four projections in different orders, on 2-4 ranks', 'tests restore one projection on one rank, or an undirected network read from a file',
     [SRC + 'checkpoint.py'], [('spaces and networks', SRC + 'checkpoint.py save_space/restore_space/save_network/NetworkRestorer')],
     ['agents, ghosts, locations, edges on every rank'],
     'explicit exploration of all histories within bounds on the real code of all ranks against the reference model of the simulation', 'every history within the bounds is executed on the real code')

prop('C17', 'Logs hold exactly what the ranks have logged, once, overwriting nothing',
     'Each row of a reducing data set has the tick of one call of log and, for every logger, the reduction (with its operation) over all ranks of the values its source had at that call, '
     'under the documented header, in the order of the calls. After buffer_size calls, write or close the file has all rows logged so far, however many. '
     'A tabular log has the rows of all ranks of each write, in order of rank and of logging, each once and with the values logged, whatever they contain. '
     'Existing files are left alone: a new name with the first free number is used, and missing directories are made.',
     [P, I, C], 'all sequences of log, write and close up to 5-7, buffer sizes, operations, values, delimiters, existing files and forms of file name, on 1-3 ranks; counts around the size of the buffers',
     'tests log ten rows and close once', [SRC + 'logging.py', SRC + 'util.py'],
     [('reduction', SRC + 'logging.py ReducingDataLogger/ReducingDataSet'), ('rows', SRC + 'logging.py TabularLogger'), ('free file names', SRC + 'util.py find_free_filename')],
     ['the files after every operation'],
     'stateless exhaustive exploration of logging programs of several ranks on the real code, the file compared with a reference after each operation', 'all programs within the bounds')
prop('C18', 'Networks written to a file are read back as the same network on all ranks',
     'write_network writes every node once, with its type, attributes and a rank of the given number of ranks, and every edge once with its attributes, whatever the partition, and leaves the graph unchanged; '
     'a random partition gives no rank more than its even share of the nodes (rounded up). read_network creates on each rank the agents of that rank (on a single process all of them) with their attributes, '
     'in the order of the file, and afterwards every rank has all the edges of its agents with their attributes, directed or not, with ghosts of the agents of other ranks, and moves, removals and changes are '
     'synchronized as in any shared network. A line that is not as documented is an error that gives its number.',
     [I, C, H], 'all graphs of up to 3-4 nodes, all partitions (random and by a stand-in for metis) over 1-4 ranks, attributes with nested, empty and special values, all assignments to ranks, followed by any operation; '
     'single errors in lines', 'tests read one file of numbers and write random graphs whose partition is not varied', [SRC + 'network.py'],
     [('reading', SRC + 'network.py read_network'), ('writing', SRC + 'network.py write_network')],
     ['the file; agents, ghosts and edges on every rank'],
     'explicit exploration of all files within bounds, written and read by the real code on all ranks, against the graph and the reference model of shared networks; random draws replaced by enumerated choices',
     'all graphs, partitions and assignments within the bounds')
prop('C19', 'Parameters are the file\'s overridden by the string; the seed decides all draws',
     'init_params returns (and params holds) the entries of the yaml file - none if it is empty - overridden by those of the json string, for any values, and nothing of earlier calls. '
     'When these have a random.seed, or after random.init, every generator of the package - the default one, numpy\'s and torch\'s - and everything the package draws '
     '(shuffled agents, random value layers, network assignments) are functions of the seed and the program alone: the same in another run, whatever was drawn before, and different seeds are not mixed up. Without a seed, the generators are seeded with the time, and seed tells it. '
     'A parameter file to dump to gets these parameters, under the first free name.',
     [I, P], 'all files and strings of up to two parameters over special values, sequences of calls; programs of draws from all sources before and after the seed is set, several seeds',
     'tests draw a few numbers from one seed and have no parameters', [SRC + 'parameters.py', SRC + 'random.py'],
     [('parameters', SRC + 'parameters.py init_params'), ('generators', SRC + 'random.py init'), ('arguments', SRC + 'parameters.py create_args_parser')],
     ['params, numbers drawn by every source of the package'],
     'stateless exhaustive exploration of configurations and drawing programs on the real code, each run twice after different histories', 'all programs within the bounds')
prop('C20', 'Agents and points are, and remain, what they were created as',
     'The id, type, rank and uid of an agent are those it was created with and never change; the local rank is the rank until it is set. Values out of range or of another type are errors that leave nothing changed. '
     'A point has the coordinates it was made with or last set to - from numbers or an array of any memory layout - and equals, hashes as and differs from exactly what it should; '
     'coordinates and the fields of a bounding box are independent of the objects they were given.',
     [I, H], 'ids, types, ranks and coordinates at the limits of their types, every kind of argument; arrays of all strides, orders and types; sequences of changes',
     'tests create agents and points of a few small numbers', [SRC + 'coremodule.cpp', SRC + 'spacemodule.cpp', SRC + 'geometry.py'],
     [('agents', SRC + 'coremodule.cpp Agent_init'), ('points', SRC + 'spacemodule.cpp DiscretePoint, ContinuousPoint')],
     ['attributes, ==, !=, hash and str'],
     'explicit enumeration of boundary-complete arguments and sequences of changes on the real native types', 'complete enumeration within the bounds')
prop('C21', 'Objects live as long as they are used, and no longer',
     'The agents a query has found remain what they are while they are iterated or held, and exactly these are iterated, whatever is done to them and the space meanwhile: moved, removed, or forgotten by everyone else. '
     'Results outlive the space. An agent in a space stays the object it is when nobody else refers to it, and nothing - agent, point or other object - remains of it once it has left the space '
     'or the space is gone. After a synchronization no rank keeps objects of agents that are neither local nor ghosts there.',
     [H], 'all sequences of changes before, between and after the agents of a query are looked at, for grids and continuous spaces, shared or not, both occupancies; sequences of operations repeated; the simulations of C05 and C06',
     'tests iterate without changing anything and would not notice the use of freed memory', [SRC + 'core.h', SRC + 'occupancy.h', SRC + 'core.py'],
     [('iterators', SRC + 'core.h TAgentIter'), ('references of spaces', SRC + 'occupancy.h, space.h'), ('references of ranks', SRC + 'core.py AgentManager')],
     ['iterated agents (memory of freed objects is overwritten); agent objects that are alive, their reference counts, and the number of allocated objects'],
     'exhaustive exploration of interleavings of iteration and changes on the real native code with debug allocators', 'all interleavings within the bounds')



def main():
    from importlib import import_module  # noqa: F401
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80, p['id']
    man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python mc/build.py', 'checks': [
        {'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
         'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in PROPS],
        'not_applicable': [], 'notes': 'see DESIGN.md; no hooks are needed in /repo'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
