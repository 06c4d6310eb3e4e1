# continuation of spec.py (same namespace)

PURE = ('pure computation on arguments held in memory: it involves no schedule, clock, I/O, randomness or second party, so a simulator has nothing to vary and a fault nowhere to land; '
        'generating inputs for it would be property-based testing under another name')

prop('N01', 'Unit of measure conversion is consistent and invertible',
     'Converting values from one unit of measure to another and back gives the original values within floating point error, conversion through a third unit gives the same result as direct conversion, '
     'and conversion between units of different quantity classes is refused.',
     ['inputs'], 'all pairs of the known units of measure and all finite values', 'Tests convert a few pairs only.',
     ['resqpy/weights_and_measures/weights_and_measures.py'], [('factors from the json unit tables', 'resqpy/weights_and_measures/weights_and_measures.py convert')], na = PURE)
prop('N02', 'Coordinate reference system conversions invert each other',
     'Converting points from a local coordinate reference system to the global frame (or to another local one) and back returns the original points within floating point error, for every combination of origin offset, '
     'areal rotation, axis order, vertical direction and units.',
     ['inputs', 'configurations'], 'all local coordinate reference systems and points', 'Tests use a few fixed systems.', ['resqpy/crs.py'],
     [('conversion methods', 'resqpy/crs.py local_to_global_array, global_to_local_array, convert_array_to')], na = PURE)
prop('N03', 'Refining, coarsening and extracting parts of a grid conserve geometry',
     'A refined grid occupies the volume of the coarse grid it was made from, a coarsened grid or extracted box has the corner points of the cells it was made from, and inherited properties conserve their integral or mean as their kind requires.',
     ['inputs', 'configurations'], 'all grids, refinement and coarsening schemes and boxes', 'Tests use a few small grids.',
     ['resqpy/derived_model/_refined_grid.py', 'resqpy/derived_model/_coarsened_grid.py', 'resqpy/derived_model/_extract_box.py', 'resqpy/olio/fine_coarse.py'],
     [('fine coarse mapping', 'resqpy/olio/fine_coarse.py')], na = PURE)
prop('N04', 'Fine coarse mappings partition the fine range',
     'For every fine coarse specification, fine cells are assigned to exactly one coarse cell, the fine ranges of coarse cells are contiguous, ordered and cover the whole extent, and proportions of each coarse cell sum to one.',
     ['inputs'], 'all extents, ratios and proportions', 'Tests use a few ratios.', ['resqpy/olio/fine_coarse.py'], [('FineCoarse', 'resqpy/olio/fine_coarse.py')], na = PURE)
prop('N05', 'Cell geometry derived quantities agree with each other',
     'Volumes, centre points, thicknesses and areas of cells agree with the corner points whichever way (cell by cell, whole grid, with or without caching) they are asked for, and split pillars are honoured.',
     ['inputs'], 'all corner point geometries', 'Tests use regular or lightly faulted grids.', ['resqpy/grid/_points_functions.py', 'resqpy/grid/_cell_properties.py', 'resqpy/olio/volume.py'],
     [('points functions', 'resqpy/grid/_points_functions.py')], na = PURE)
prop('N06', 'Well paths are interpolated consistently',
     'The xyz of a trajectory at one of its own measured depth stations is the control point, interpolation between stations is continuous and monotonic in measured depth, and a deviation survey round trips through a trajectory.',
     ['inputs'], 'all surveys and measured depths', 'Tests use a few surveys.', ['resqpy/well/_trajectory.py', 'resqpy/well/_deviation_survey.py'],
     [('trajectory interpolation', 'resqpy/well/_trajectory.py')], na = PURE)
prop('N07', 'A blocked well agrees with the geometry of its grid',
     'Each blocked interval lies within the cell it is assigned to, entry and exit points lie on the faces recorded, intervals are in increasing measured depth order and their lengths sum to the length of well path within the grid.',
     ['inputs'], 'all grids and trajectories', 'Tests use a few regular grids.', ['resqpy/grid_surface/_blocked_well_populate.py', 'resqpy/well/_blocked_well.py'],
     [('trajectory through grid', 'resqpy/grid_surface/_blocked_well_populate.py')], na = PURE)
prop('N08', 'Surfaces intersected with grids give the same faces by every algorithm',
     'The serial algorithms for finding the faces of a grid that represent a surface agree with each other on regular grids, and every path from one side of a complete surface to the other crosses a selected face.',
     ['inputs'], 'all regular grids and surfaces', 'Tests compare a few surfaces.', ['resqpy/grid_surface/_find_faces.py'], [('find faces', 'resqpy/grid_surface/_find_faces.py')],
     na = PURE + ' (the division of this work over processes is claimed by other properties)')
prop('N09', 'Triangulation covers the convex hull without overlap',
     'The triangles made from a set of points are non-degenerate, do not overlap, use only the given points and cover their convex hull (or the hull extended as requested).',
     ['inputs'], 'all point sets', 'Tests use a few point sets.', ['resqpy/olio/triangulation.py'], [('Delaunay triangulation', 'resqpy/olio/triangulation.py')], na = PURE)
prop('N10', 'Transmissibility is symmetric and scales with permeability',
     'Transmissibility between two cells does not depend on which is named first, is zero where either is inactive or impermeable, scales linearly with permeability, and pieces of a split face sum to no more than the whole.',
     ['inputs'], 'all corner point grids and property arrays', 'Tests use a few grids.', ['resqpy/olio/transmission.py', 'resqpy/grid/_transmissibility.py'], [('half cell transmissibility', 'resqpy/olio/transmission.py')], na = PURE)
prop('N11', 'Time stamps, durations and geologic times convert consistently',
     'Durations obtained from pairs of timestamps in a series add up, adding a duration to a timestamp and subtracting it again is the identity, and steps of a series are found by timestamp exactly.',
     ['inputs'], 'all timestamps', 'Tests use a few timestamps.', ['resqpy/time_series/_time_duration.py', 'resqpy/time_series/_any_time_series.py'], [('time duration', 'resqpy/time_series/_time_duration.py')],
     na = PURE + ' (timestamps are arguments; the wall clock is not read)')
