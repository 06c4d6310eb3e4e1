#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, text, why, files, mechanism, (technique, level, note) or None, not-applicable reason or None
P = []


def prop(id, title, statement, over, text, why, files, mech, technique = None, note = None, level = 'exploration', na = None, observe = None):
    P.append(dict(id = id, title = title, statement = statement, over = over, text = text, why = why, files = files, mech = mech, technique = technique, note = note,
                  level = level, na = na, observe = observe))


DST = 'deterministic simulation: seeded histories and faults on a simulated disk, clock and process; '

prop('C01', 'A crash during a save leaves the complete old or the complete new epc',
     'If the process dies at any point while a model is being stored (by store_epc() or by leaving a ModelContext in write mode), the epc file that is found afterwards is '
     'readable and holds exactly the previously stored parts, relationships and metadata or exactly the new ones, never a mixture, a truncation or nothing where there was something. '
     'A store that had returned before the crash is not lost, and a later session can open the model, edit it and store it again.',
     ['crash_points', 'histories', 'configurations'], 'every edit history, every save mode (first save, overwrite, save under a new name, only if modified, context manager, through a symbolic link) and every point of the save at which the process can die, including in the middle of a write',
     'A test can only look at saves that finish; no test kills the process inside a save.',
     ['resqpy/model/_forestry.py', 'resqpy/model/_model.py', 'resqpy/model/_context.py'],
     [('complete file written beside the old one then renamed', 'resqpy/model/_forestry.py _store_epc, _replacing_when_complete'), ('model context exit', 'resqpy/model/_context.py')],
     DST + 'seeded process crashes at chosen system calls of a save, independent zip/xml reader as oracle', 'seeded search over save histories x crash points (before, after and inside each system call of the save)')

prop('C02', 'A failed save is reported, changes nothing, and can be retried',
     'When a disk error, a full disk, a missing directory or a short write prevents a model from being stored, storing raises an exception; the epc file previously stored under that name is '
     'unchanged, no stray files are left behind, and the in-memory model is unchanged, keeps its epc name and is still marked as modified. Storing again once the cause has gone succeeds and writes the complete model; a store that returns without '
     'raising has written the complete model and clears the modified mark.',
     ['fault_sequences', 'histories', 'configurations'], 'every edit history, every save mode and every system call of the save failing with every error, once or persistently',
     'Tests never make a system call fail; disk errors at each of the dozens of system calls of a save cannot be sampled by example based tests.',
     ['resqpy/model/_forestry.py', 'resqpy/model/_model.py', 'resqpy/model/_context.py'],
     [('complete file written beside the old one then renamed; temporary removed on failure', 'resqpy/model/_forestry.py _store_epc, _replacing_when_complete')],
     DST + 'disk errors, full disk and short writes injected at seeded system calls of a save', 'seeded search over save histories x failing system call x error kind; one branch of the simulated disk per fault', 'fault_enumeration')

prop('C03', 'Reopening a stored epc yields exactly the model that was stored',
     'Opening an epc in any later process yields the parts, types, uuids, titles, extra metadata, relationships and xml content of the model as it was when last successfully stored, whatever characters occur in titles, metadata and file names '
     'and whichever way it is opened. Storing a freshly opened model again, or a model opened as a copy, changes nothing; every stored epc is well formed: each part has one content type entry of its own type and relationships that point to parts which exist.',
     ['histories', 'inputs', 'configurations'], 'every sequence of sessions (new, opened, opened as a copy, context manager, lazily opened) and of edits (add, remove, retitle, add metadata, patch, relate, sub-directories), with failed and crashed saves in between, and any text',
     'Tests store and reload single objects once with plain ASCII titles.',
     ['resqpy/model/_forestry.py', 'resqpy/model/_model.py', 'resqpy/olio/write_hdf5.py', 'resqpy/olio/xml_et.py'],
     [('load', 'resqpy/model/_forestry.py _load_epc, _load_part'), ('store', 'resqpy/model/_forestry.py _store_epc'), ('xml serialisation', 'resqpy/olio/xml_et.py write_xml_node')],
     DST + 'multi process edit histories with crashing and failing saves, compared with an independent zip and xml reader', 'seeded search over histories of processes')

prop('C04', 'Objects read back the values they were made from in every later session',
     'An object of any supported class that was written to a model (xml and hdf5) has, when instantiated from that model again in the same or any later session, the same title, extra metadata, scalar attributes, references and array values as it was made with. '
     'This holds after other objects have been added or removed, hdf5 files released, the model stored under another name or copied, and after failed and crashed saves of later changes.',
     ['histories', 'inputs', 'programs'], 'every supported class with any values, and every history of later sessions',
     'Each test round trips one hand made object of one class in one session; most attributes of most classes are never compared.',
     ['resqpy/organize', 'resqpy/well', 'resqpy/surface', 'resqpy/grid', 'resqpy/property', 'resqpy/lines', 'resqpy/strata', 'resqpy/unstructured', 'resqpy/time_series', 'resqpy/crs.py', 'resqpy/olio/base.py', 'resqpy/olio/dataframe.py'],
     [('base class of objects', 'resqpy/olio/base.py'), ('create_xml and load of each class', 'resqpy/*/')],
     DST + 'multi process histories writing seeded objects of 50 classes and reading them back, oracle: the numbers they were made from', 'seeded search over histories and object values')

prop('C05', 'Arrays in hdf5 files are what was last written, in every later process',
     'The hdf5 side of a model behaves as a dictionary of arrays: whatever was last written or overwritten under a uuid and path (directly, through a register, or as properties and collections of properties; with any element type, packing, chunking and '
     'compression) is what every later whole, shape, element, slice, type converted or reshaped read returns, in the same process or in any later one, also after files are copied or uuids changed. '
     'A write that returned (and was released) is there for any later process even if the writer is killed straight afterwards; a write that does not reach the disk is reported by an exception and disturbs no other array.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'], 'every sequence of writes, overwrites, reads, copies and releases over several processes, killed or not, with any disk error during a write',
     'Tests write and read single arrays once, in one process, on a disk that works.',
     ['resqpy/model/_hdf5.py', 'resqpy/olio/write_hdf5.py', 'resqpy/property/_property.py', 'resqpy/property/property_collection.py'],
     [('reading, slices and elements', 'resqpy/model/_hdf5.py'), ('H5Register, copy_h5 and change_uuid', 'resqpy/olio/write_hdf5.py')],
     DST + 'histories of processes reading and writing hdf5 arrays, killed or ending normally, with disk errors in writes; oracle: a dictionary of numpy arrays', 'seeded search over histories and write faults')

prop('C06', 'A read that meets a disk error raises, and later reads are not spoiled',
     'Opening an epc, instantiating an object or asking one for arrays or derived data, while reads or opens of files fail or fall short, either raises an exception or gives exactly what it gives on a sound disk; a damaged or truncated epc never opens as a smaller or different model. '
     'After the failure, the same objects and model give the right answers once the disk works again: nothing partially loaded is left in caches and no file is left open. '
     'Answers of a lazily loaded object do not depend on which other questions were asked of it before, or which of them failed.',
     ['fault_sequences', 'histories', 'inputs'], 'every object, every sequence of questions to it, and every read or open system call failing with any error once, several times or persistently, and every place of damage in an epc',
     'Tests never make a read fail, and ask each object a fixed short sequence of questions.',
     ['resqpy/model/_hdf5.py', 'resqpy/model/_forestry.py', 'resqpy/grid', 'resqpy/unstructured', 'resqpy/surface', 'resqpy/property', 'resqpy/well', 'resqpy/lines'],
     [('loading of parts', 'resqpy/model/_forestry.py _load_epc, _load_part'), ('loading and caching of arrays', 'resqpy/model/_hdf5.py _h5_array_element; cached attributes in resqpy/grid, surface, property, unstructured')],
     DST + 'read and open errors, short reads and damaged files injected while opening models, reading objects and asking seeded sequences of questions; oracle: the answers of a fresh object on a sound disk', 'seeded search over question sequences x failing reads', 'fault_enumeration')

prop('C08', 'Catalogue queries and part identity agree with the xml through every edit',
     'At every point of an editing history the lists of parts, uuids, titles and roots that a model returns for any combination of type, uuid, title (exact, starts, ends, contains, case), metadata, sub-directory, related object, sort order and count are those of the parts '
     'whose xml satisfies the criteria; single item queries and the catalogue dictionaries agree with them. Uuids are unique and parts keep theirs through every edit, session, crash and jump of the clock; a removed part is gone from every query; the uuids, xml and creation stamps of parts never change unless edited.',
     ['histories', 'inputs'], 'every history of edits and sessions, including clock jumps, and every query', 'Tests query one small static model with a few criteria.',
     ['resqpy/model/_catalogue.py', 'resqpy/model/_model.py', 'resqpy/model/_forestry.py', 'resqpy/olio/uuid.py'],
     [('queries', 'resqpy/model/_catalogue.py'), ('part dictionaries', 'resqpy/model/_forestry.py _add_part, _remove_part, _patch_root_for_part'), ('uuid generation', 'resqpy/olio/uuid.py')],
     DST + 'edit histories over several processes with clock jumps; a brute force reference catalogue computed from raw xml is compared after every edit', 'seeded search over histories and queries')

prop('C09', 'The relationship graph agrees with the references through every edit',
     'After every edit, save and load, in every session, the relationships a model reports (related uuids, referencing and referenced parts, both directions, and the .rels parts it stores) are exactly those implied by the references in the xml of its parts plus the soft '
     'relationships explicitly made. They are symmetric, never mention a part that has been removed, survive storing and reloading, and are the same whether computed incrementally, on loading, or from scratch.',
     ['histories', 'programs'], 'every history of additions, removals, patches and explicit relationships over several sessions with crashing and failing saves', 'Tests check the relationships of a few objects straight after creation.',
     ['resqpy/model/_forestry.py', 'resqpy/model/_catalogue.py', 'resqpy/model/_xml.py', 'resqpy/model/_model.py'],
     [('uuid relationship dictionary', 'resqpy/model/_forestry.py _add_uuid_relations, _del_uuid_relations, _complete_load'), ('rels parts', 'resqpy/model/_xml.py _create_reciprocal_relationship')],
     DST + 'edit histories over several processes; the relationship graph is recomputed by an independent reader after every edit', 'seeded search over histories')

prop('C10', 'Copying between models is complete, faithful and leaves all else alone',
     'Copying parts from one model to another, by uuid, part or altogether, brings over each part asked for (or, when consolidating, keeps an equivalent one already there) together with everything it refers to, directly or indirectly: the copies have the same xml, values and arrays '
     'as the originals, with references leading to their counterparts. Only parts that say the same are taken to be equivalent; the source model, and what the target held before, do not change, and copying again adds nothing. '
     'A copy that fails raises, leaves nothing half copied, and succeeds when repeated after the cause has gone.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every pair of models (unrelated, alike or derived from each other), every sequence of copies from one or two sources, with and without consolidation and realization numbers, and every failing hdf5 read, open or lock',
     'Tests copy a few parts once between two hand made models and look mostly at counts; none lets a copy fail part way.',
     ['resqpy/model/_forestry.py', 'resqpy/olio/consolidation.py', 'resqpy/olio/write_hdf5.py', 'resqpy/model/_model.py'],
     [('copying of parts, references and relationships', 'resqpy/model/_forestry.py _copy_part_from_other_model, _copy_referenced_parts, _copy_all_parts_from_other_model'),
      ('equivalence', 'resqpy/olio/consolidation.py'), ('copying of arrays', 'resqpy/olio/write_hdf5.py copy_h5_path_list')],
     DST + 'seeded pairs of models and copies between them with failing, locked and repeated copies; the stored target is compared with the sources by an independent reader', 'seeded search over models, copy sequences and read, open and lock faults')

prop('C11', 'Work divided over processes gives what it gives done in turn',
     'However many workers there are, however work is divided and interleaved and whoever else uses the files, multiprocessing functions give the success list in order of the tasks and one epc holding everything the tasks made, with the values and relationships it was made with, '
     'and whatever the epc held before; the same as doing the tasks in turn. If a task raises, a worker dies, a disk error or a lock prevents recombination, or success was required and not had, the call raises within bounded time and the existing epc stays as it was. '
     'The call can be repeated once the cause has gone.',
     ['schedules', 'fault_sequences', 'crash_points', 'configurations'], 'every set of tasks, number of workers, interleaving at file system calls, delay of files becoming visible, rival user of the files and fault in a worker or the caller',
     'Tests run a few tasks on one real scheduler with everything going well.',
     ['resqpy/multi_processing/_multiprocessing.py', 'resqpy/multi_processing/wrappers', 'resqpy/olio/consolidation.py', 'resqpy/model/_forestry.py', 'resqpy/olio/write_hdf5.py', 'resqpy/grid_surface/_find_faces.py'],
     [('distribution and recombination', 'resqpy/multi_processing/_multiprocessing.py function_multiprocessing'), ('tasks', 'resqpy/multi_processing/wrappers')],
     DST + 'joblib backend whose workers are simulated processes interleaved at system calls by a seeded scheduler, with delays, locks, faults and crashes; the epc is compared with what the tasks made by an independent reader', 'seeded search over tasks, schedules, delays and faults')

prop('C12', 'Loops divided over threads give the same answer under every schedule',
     'Finding the points within polygons and triangles, and hence the cell faces which represent a surface and their properties, gives the same rows in the same order however iterations are batched, divided over threads and interleaved, and as the serial variants give. '
     'The rows are exactly the points which lie within, each once; z values, triangle numbers and other properties belong to their rows, and arguments are not modified.',
     ['schedules', 'inputs', 'configurations'], 'every division into batches and threads, every interleaving of those and all points, polygons, triangles and surfaces',
     'Tests run whatever interleaving the machine happens to produce, for one batch size.',
     ['resqpy/olio/vector_utilities.py', 'resqpy/grid_surface/_find_faces.py', 'resqpy/fault/_grid_connection_set.py', 'resqpy/surface/_tri_mesh.py'],
     [('parallel loops', 'resqpy/olio/vector_utilities.py points_in_polygon, points_in_triangles_aligned_optimised, points_in_triangles_aligned_unified'), ('faces and their properties', 'resqpy/grid_surface/_find_faces.py, resqpy/fault/_grid_connection_set.py from_faces_indices')],
     DST + 'prange loops run by simulated threads interleaved at bytecodes by a seeded scheduler; oracles: brute force geometry, the serial variant and other schedules', 'seeded search over inputs, batchings and interleavings')

prop('C07', 'Models open at once in one process are independent of one another',
     'However operations on several models open in one process are interleaved, whatever their names and directories and with one or two hdf5 files each, what is done to one changes only its own memory and files, and each object is read from its own model. '
     'After h5_release(), or on leaving a model context in any way, no file of the model is open and other processes may use it. A context saves on leaving only in a writing mode, never when left by an exception, and then lets the exception (or the failure to save) out, the epc being unchanged.',
     ['programs', 'histories', 'fault_sequences', 'configurations'], 'every sequence of operations on several models, every arrangement of names, directories and hdf5 files, and every exception or failing save within a context',
     'Tests have one model open at a time and leave contexts normally.',
     ['resqpy/model/_hdf5.py', 'resqpy/model/_context.py', 'resqpy/model/_model.py', 'resqpy/model/_xml.py'],
     [('the open hdf5 file of a model and its name', 'resqpy/model/_hdf5.py _h5_access, _h5_file_name, _h5_release'), ('model context', 'resqpy/model/_context.py'), ('external parts', 'resqpy/model/_xml.py _create_hdf5_ext')],
     DST + 'seeded interleavings of operations on several models, with exceptions and failing saves in contexts; file digests, open file descriptors and a dictionary of expected values as oracles', 'seeded search over interleavings of operations and faults')

prop('C13', 'Processes using a dataset at the same time see and leave whole versions',
     'When several processes open, read, edit and save one dataset at the same time, whoever opens the epc finds one of the versions saved, whole, and saves and opens take effect one at a time in an order consistent with real time; the last save wins. '
     'An access to the hdf5 file which conflicts with that of another process is refused by an exception and succeeds when repeated later; no value read is ever wrong. The death or failing save of one process disturbs no other.',
     ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every interleaving, at system calls, of every set of reading and writing sessions, with the death of any writer in a save or any disk error there',
     'Tests use a dataset from one process at a time.',
     ['resqpy/model/_forestry.py', 'resqpy/model/_hdf5.py', 'resqpy/model/_context.py', 'resqpy/olio/write_hdf5.py'],
     [('complete file written beside the old one then renamed', 'resqpy/model/_forestry.py _store_epc, _replacing_when_complete'), ('opening', 'resqpy/model/_forestry.py _load_epc'), ('access modes and locks', 'resqpy/model/_hdf5.py _h5_access')],
     DST + 'simulated processes interleaved at system calls by a seeded scheduler, some killed or meeting disk errors; opened versions compared whole, and the history of saves and opens checked for linearizability', 'seeded search over interleavings, crashes and faults of concurrent sessions')

prop('C17', 'Derived model functions extend a dataset completely or leave it as it was',
     'A derived_model function (added properties; boxes, refined, coarsened, tilted, draped, zonal, faulted, scaled and interpolated grids; wells; ensembles), or a blocked well taking properties from its grid or a frame, leaves every object and array already stored unchanged and adds, to the dataset or to a new one, everything the result refers to: '
     'grid, crs, inherited properties with their values, realizations, facets, units, null values, lookups, time series and inactive cells, connection sets, and all arrays, and the result is where and what was asked for. '
     'If it cannot read what it needs or write the epc, or dies writing it, the dataset is as it was (or, for functions which store in several steps, as one of these left it) and repeating the call gives the same result; if it returns, the result is that of an undisturbed run.',
     ['inputs', 'fault_sequences', 'crash_points', 'configurations'], 'every dataset of grids with properties, every derivation and its options, and every failing read, lock or write of the epc or death during that',
     'Tests make one derivation each on sound disks, mostly in place, and look at what it returns rather than at what was stored.',
     ['resqpy/derived_model/_common.py', 'resqpy/derived_model/_extract_box.py', 'resqpy/derived_model/_zonal_grid.py', 'resqpy/derived_model/_gather_ensemble.py', 'resqpy/derived_model/_add_faults.py', 'resqpy/property/grid_property_collection.py', 'resqpy/well/blocked_well_frame.py'],
     [('writing of a derived grid and its properties', 'resqpy/derived_model/_common.py _write_grid'), ('inheritance of properties', 'resqpy/property/grid_property_collection.py extend_imported_list_copying_properties_from_other_grid_collection')],
     DST + 'seeded datasets and derivations run as processes meeting read, lock and write errors and death; an undisturbed run, an independent reader of the files and values computed separately are the oracles', 'seeded search over datasets, derivations and faults')

prop('C14', 'Property collections hold, find and read exactly their properties, always',
     'At every point of a history of importing, adding, inheriting, sampling, removing and rereading, a property collection holds exactly the parts put into it, and its selections (any combination of realization, support, kind, facet, title, time, units, lookup, count, indexable element, '
     'constant value, metadata or relationship), lists, flags and metadata are those the properties were made with. '
     'Arrays returned whole, sliced, masked, normalised or assembled over realizations, facets or time are what the properties hold, in any order of asking, whatever is packed, cached, uncached or overwritten. '
     'An import or read that fails raises, loses nothing from the list of imports, spoils no cache and succeeds when repeated; property sets rebuild the collection in later sessions.',
     ['histories', 'inputs', 'fault_sequences'], 'every history of operations on collections of any properties of any support, and every failing or refused access to the hdf5 file during it',
     'Tests make one collection, use a criterion or two and read each array once, so state kept by a collection (caches, flags, support, list of imports) is never wrong when they look.',
     ['resqpy/property/property_collection.py', 'resqpy/property/_collection_add_part.py', 'resqpy/property/_collection_get_attributes.py', 'resqpy/property/_collection_create_xml.py', 'resqpy/property/_property.py', 'resqpy/property/attribute_property_set.py',
      'resqpy/property/property_common.py', 'resqpy/model/_hdf5.py'],
     [('collection dictionary and selection', 'resqpy/property/_collection_add_part.py'), ('array access, shapes, packing and assembly', 'resqpy/property/_collection_get_attributes.py'), ('list of imports', 'resqpy/property/property_collection.py add_cached_array_to_imported_list')],
     DST + 'seeded histories of processes working on several collections, some hdf5 accesses meeting errors, locks and short reads; a shadow of every collection is the oracle', 'seeded search over histories of collection operations x faults', )

prop('C16', 'Interchange files give what was last written, or an error',
     'What an importer gives (models and properties from Nexus text and binary files, corner points, arrays, fault files, wells, trajectories, surfaces, lines, points, meshes, relative permeability) is what was last exported to the file, within the precision of its text, '
     'in values, shapes, order, names, counts and nulls, whichever way it is read. '
     'Binary copies kept beside text files change nothing but speed, even when their making was interrupted, failed, or overlapped with the replacement of the text. '
     'A read, write or disk that fails, or a file cut short where its size is known, gives an error or the right data, never other data, and the next attempt succeeds.',
     ['inputs', 'fault_sequences', 'crash_points', 'schedules', 'histories'], 'every content of every interchange format, every failure or death of exporter and importer at any I/O call, and importers beside writers',
     'Tests read a few small fixed files once; copies left by interrupted or concurrent earlier reads, short reads, full disks and unusual contents (single values, repeated names, several wells) are not among them.',
     ['resqpy/olio/load_data.py', 'resqpy/olio/write_data.py', 'resqpy/olio/ab_toolbox.py', 'resqpy/olio/zmap_reader.py', 'resqpy/olio/read_nexus_fault.py', 'resqpy/olio/wellspec_keywords.py', 'resqpy/olio/relperm.py', 'resqpy/olio/simple_lines.py', 'resqpy/rq_import/_import_nexus.py',
      'resqpy/grid/_write_nexus_corp.py', 'resqpy/lines/_polyline_set.py', 'resqpy/surface/_pointset.py', 'resqpy/surface/_mesh.py', 'resqpy/fault/_grid_connection_set.py', 'resqpy/well/_blocked_well.py', 'resqpy/well/_trajectory.py', 'resqpy/well/_deviation_survey.py'],
     [('text arrays and their binary copies', 'resqpy/olio/load_data.py load_array_from_file, write_data.py write_array_to_ascii_file'), ('import of whole models', 'resqpy/rq_import/_import_nexus.py'), ('wellspec files', 'resqpy/olio/wellspec_keywords.py, resqpy/well/_blocked_well.py'),
      ('fault files', 'resqpy/olio/read_nexus_fault.py, resqpy/fault/_grid_connection_set.py')],
     DST + 'seeded histories of exports, imports, cut files and importers beside writers on the simulated disk, buffered I/O of numpy included, with errors, short transfers, full disks and deaths; the values exported are the oracle', 'seeded search over histories of exports and imports x faults x interleavings',
     'text formats without a count do not tell a shortened file from a whole one: of those nothing is claimed until an interrupted export has been repeated')

exec(open(os.path.join(HERE, 'tools', 'spec_more.py')).read())


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            built = os.path.exists(os.path.join(HERE, 'sim', 'props', p['id'].lower() + '.py'))
            if p['na'] is None and not built:
                print('not built yet:', p['id'])
                continue
            assert len(p['title']) <= 80, p['title']
            a = dict(files = p['files'], mechanism = [dict(name = n, where = w) for n, w in p['mech']])
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps(dict(id = p['id'], title = p['title'], statement = p['statement'], quantifier = dict(over = p['over'], text = p['text']),
                                    why_tests_cant = p['why'], anchors = a)) + '\n')
            if p['na'] is None:
                checks.append(dict(property = p['id'], quick_cmd = f'python3 check.py {p["id"]}', thorough_cmd = f'python3 check.py {p["id"]} --tier thorough',
                                   technique = p['technique'], level = p['level'], level_note = p['note']))
            else:
                na.append(dict(property = p['id'], reason = p['na']))
    m = dict(version = 1, setup_cmd = 'python3 tools/setup.py', checks = checks, not_applicable = na,
             notes = 'No hooks in /repo: every seam is below resqpy (system calls by LD_PRELOAD shim, clock, entropy, process death) or one it already has '
                     '(joblib backend, cluster argument). See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent = 1)
        f.write('\n')


if __name__ == '__main__':
    main()
