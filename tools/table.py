# -*- coding: utf-8 -*-
"""The property list: one entry per property."""
T = 'ocelot/transformations/'
PROPS = []


def prop(id, title, statement, forall, why, files, mech, note, level='proof', over=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, forall=forall, why=why, files=files,
                      mech=mech, note=note, level=level, over=over or ['inputs'], **kw))


NA = []

prop('C01', 'Scaling an exchange scales its amount and its uncertainty distribution',
     'Multiplying an exchange by a factor multiplies its amount by exactly that factor and transforms its uncertainty distribution '
     'accordingly: location parameters and bounds scale with the factor, normal variances with its square, lognormal variances stay, '
     'the sign flag follows the sign. Scaling by zero leaves no degenerate distribution behind, scaling by one changes nothing. '
     'Nothing else of the exchange changes and scaling never fails on a valid distribution.',
     'all exchanges with a valid distribution of any kind (or none) and all real factors, including zero and negative ones',
     'the tests scale a handful of exchanges by fixed factors and check a few fields; they cannot cover every sign, zero and distribution combination',
     [T + 'uncertainty/__init__.py', T + 'uncertainty/distributions.py'],
     [('scale_exchange', T + 'uncertainty/__init__.py'), ('rescale of each distribution class', T + 'uncertainty/distributions.py')],
     'Every obligation proved for all inputs of the schema; reals for floats.')

prop('C02', 'Uncertainty repair yields consistent distributions and changes no amounts',
     'After the repair step every remaining uncertainty distribution is consistent with the value it belongs to: bounds are ordered and enclose the '
     'amount, the lognormal median is the absolute amount with matching logarithm and sign flag, the total variance is basic plus pedigree variance, and no distribution is degenerate. '
     'A distribution is only removed when it is degenerate or cannot be reconciled. '
     'Amounts and everything else of exchanges, production volumes, properties and parameters are unchanged.',
     'all data: any number of datasets, exchanges, properties and parameters with any distribution and any pedigree scores',
     'tests repair single hand-written distributions; the guarantee is about every distribution anywhere in arbitrary data',
     [T + 'parameterization/uncertainty.py', T + 'uncertainty/distributions.py', T + 'utils.py'],
     [('repair_all_uncertainty_distributions', T + 'parameterization/uncertainty.py'), ('iterate_all_uncertainties', T + 'utils.py'),
      ('repair, recalculate of each distribution class', T + 'uncertainty/distributions.py')],
     'Every obligation proved for all inputs of the schema, function by function; reals for floats, log axiomatised.')

prop('C03', 'Normalisation expresses every dataset per unit of its reference product',
     'Normalising a dataset divides every exchange amount by the absolute amount of its single reference product, so that the reference product becomes one with its old sign. '
     'A dataset with no or several reference products, or with zero production, is refused and left untouched. No exchange appears or disappears and no other attribute changes.',
     'all datasets with any number of exchanges of any type and amount, all lists of datasets',
     'tests normalise two or three hand-written datasets',
     [T + 'utils.py'],
     [('normalize_reference_production_amount, get_single_reference_product, label_reference_product, get_biggest_pv_to_exchange_ratio', T + 'utils.py')],
     'Every obligation proved for all inputs; scaling used through its proved contract.')

prop('C04', 'Allocation to a product gives a complete single-product dataset',
     'Allocating a dataset to one of its products yields a new dataset whose only reference product is the chosen one with amount one (keeping its sign), whose other products are kept with amount zero and without volume or formula, and in which every other '
     'exchange has its old amount times the allocation factor per unit of product. No exchange is lost or duplicated, all other attributes are kept, and the source dataset is unchanged. '
     'A chosen product with zero amount is refused.',
     'all datasets with any mixture and number of exchanges, every allocatable product of them, and all real allocation factors',
     'tests allocate a few fixed datasets and check selected fields',
     [T + 'utils.py', T + 'cutoff/utils.py'],
     [('choose_reference_product_exchange, nonreference_product, allocatable_production, nonproduction_exchanges', T + 'utils.py'),
      ('apply_allocation_factors', T + 'cutoff/utils.py')],
     'Every obligation proved for all inputs; exchanges of a dataset are assumed to have distinct ids.')

prop('C05', 'Economic allocation shares burdens by revenue and true value, or refuses',
     'A multi-output dataset is split into one dataset per product, allocated with the share of the product in the total revenue (price times amount), except that products with a true value relation '
     'share their joint revenue in proportion to true value times amount. The shares sum to one. '
     'A dataset with a product without price, with a negative price or a negative amount is refused, and the source dataset is never changed.',
     'all datasets with any number of products and other exchanges, any prices and true values with a positive total revenue',
     'tests compare the factors of a few fixed datasets',
     [T + 'cutoff/economic.py', T + 'cutoff/validation.py', T + 'cutoff/utils.py', T + 'utils.py'],
     [('economic_allocation', T + 'cutoff/economic.py'), ('valid_economic_activity', T + 'cutoff/validation.py'),
      ('allocatable_production_as_dataframe', T + 'utils.py')],
     'Every obligation proved for all inputs; allocation to one product used through its proved contract (C04); pandas columns modelled.')

prop('C06', 'Waste treatment and recycling put the burdens where the documentation says',
     'Waste treatment keeps all burdens on the treated waste and provides every useful by-product free of burdens. Recycling turns the recycled material into an input with its sign flipped and allocates the products economically. '
     'Datasets that are not the consumption of exactly one waste, or not recycling into at least one product, are refused and left alone.',
     'all datasets with any exchanges, classifications and amounts',
     'tests run a handful of fixed datasets through each procedure',
     [T + 'cutoff/wastes.py', T + 'cutoff/validation.py'],
     [('waste_treatment_allocation, recycling_allocation', T + 'cutoff/wastes.py'),
      ('valid_waste_treatment_activity, valid_recycling_activity', T + 'cutoff/validation.py')],
     'Every obligation proved for all inputs; economic allocation and scaling used through their proved contracts.')

prop('C08', 'Every dataset gets the allocation procedure of the decision tree',
     'Each dataset is labelled with exactly the procedure the documented decision tree prescribes for its type, its products and by-products and their signs and classifications, and nothing else of it changes. '
     'Every label has exactly one procedure, applied to the datasets with that label only. '
     'A dataset with several products is never passed through unallocated.',
     'all datasets of any type with any number of products, by-products and conditional exchanges',
     'tests cover one dataset per branch of the tree',
     [T + 'cutoff/allocation.py', T + 'cutoff/validation.py', T + 'validation.py'],
     [('choose_allocation_method, label_allocation_method, create_allocation_filter, no_allocation', T + 'cutoff/allocation.py'),
      ('check_single_output_activity', T + 'validation.py')],
     'Every obligation proved for all inputs.')

prop('C18', 'Clean-up steps remove exactly what they are meant to remove',
     'Dropping activity links removes the links of zero-amount exchanges (respectively of former and current reference products) and nothing else. Removing consequential exchanges removes exactly the exchanges marked so. '
     'Removing the allocation label removes only the label.',
     'all lists of datasets with any exchanges, links and properties',
     'tests use one or two datasets with a few exchanges',
     [T + 'cutoff/cleanup.py', T + 'cutoff/utils.py'],
     [('drop_zero_amount_activity_links, drop_rp_activity_links, remove_consequential_exchanges', T + 'cutoff/cleanup.py'),
      ('delete_allocation_method', T + 'cutoff/utils.py')],
     'Every obligation proved for all inputs.')

prop('C19', 'Wastes and recyclables are turned into inputs and burden-free supplies',
     'Every by-product that is not an allocatable product becomes an input with the opposite amount and formula; recyclables are renamed with the cut-off suffix and are each supplied by exactly one new burden-free dataset of one unit. '
     'After linking the suffix is removed from every flow again. No exchange is lost and all other attributes and datasets are unchanged.',
     'all lists of datasets with any exchanges and classifications',
     'tests use a few fixed datasets',
     [T + 'cutoff/wastes.py'],
     [('flip_non_allocatable_byproducts, rename_recyclable_content_exchanges, create_recycled_content_datasets, rename_recycled_content_products_after_linking', T + 'cutoff/wastes.py')],
     'Proved for all inputs, except that every recyclable gets a dataset, and only one, which is checked on bounded random inputs.')

prop('C10', 'Production volumes are read, estimated and parameterised without side effects',
     'Reading a production volume gives the volume of the single reference product (or the default) and changes nothing. A missing volume of an allocatable byproduct becomes its amount times the ratio of the reference product; '
     'variables of volumes become parameters with the same value, unit and formula; removing the parameterisation removes exactly formulas, variables, properties and parameters. '
     'Confidential activities count as one unit of production, and only markets without any volume that the rules name are dropped.',
     'all datasets and databases with any number of exchanges, volumes, variables and parameters',
     'the tests use one or two hand-written datasets for each of these steps',
     ['ocelot/data_helpers.py', T + 'production_volumes.py', T + 'parameterization/production_volumes.py', T + 'cleanup.py', T + 'locations/markets.py',
      T + 'locations/rest_of_world.py'],
     [('production_volume, original_production_volume', 'ocelot/data_helpers.py'),
      ('add_pv_to_allocatable_byproducts', T + 'production_volumes.py'), ('create_pv_parameters', T + 'parameterization/production_volumes.py'),
      ('deparameterize', T + 'cleanup.py'),
      ('assign_fake_pv_to_confidential_datasets, delete_whitelisted_zero_pv_market_datsets, delete_global_with_zero_pv_when_regional_present', T + 'locations/markets.py'),
      ('drop_zero_pv_row_datasets', T + 'locations/rest_of_world.py')],
     'All obligations proved for all inputs, except which of the empty rest-of-world markets are dropped beside regional ones (bounded, labelled so).')

prop('C11', 'Global activities beside regional ones become the rest of the world',
     'A global dataset of an activity that also has regional datasets becomes a dataset for the rest of the world, and its production volume becomes what the regional datasets leave of it, never negative. '
     'Market groups, activities without regional datasets and all other datasets are not changed, and of the relabelled datasets nothing but location and production volume changes. '
     'Two global datasets of the same activity are refused.',
     'all databases with any number of activities, products, places and volumes',
     'the tests relabel one hand-written group of datasets',
     [T + 'locations/rest_of_world.py', T + 'locations/cleanup.py', T + 'locations/validation.py'],
     [('relabel_global_to_row', T + 'locations/rest_of_world.py'), ('correct_natural_gas_pipeline_location', T + 'locations/cleanup.py')],
     'Proved for all databases: which datasets can change and in which fields. Bounded, labelled so: that each of them is relabelled, its volume, and the refusal.')

prop('C12', 'Markets are supplied by exactly the activities located inside them',
     'A market gets as suppliers exactly the activities that make its product and whose location lies within the location of the market, where the rest of the world means the world without the other markets or the other suppliers of the same name. '
     'Each supplier is recorded with its product exchange, location, code and technology. Markets or suppliers that overlap are refused, and nothing else changes.',
     'all databases of markets and activities with all locations of the geographic data',
     'the tests use single configurations of a few places',
     [T + 'locations/markets.py', T + 'locations/validation.py'],
     [('add_suppliers_to_markets, add_recycled_content_suppliers_to_markets, apportion_market_suppliers_to_consumers', T + 'locations/markets.py'),
      ('no_overlaps', T + 'locations/validation.py')],
     'Bounded, not proved: the contracts are evaluated on databases of up to some 25 datasets over 23 places, because sets of faces computed from geographic data are outside the reach of the verifier.',
     level='exploration')

prop('C13', 'Market inputs are shared among suppliers by production volume and add up',
     'A market gets one input for each of its suppliers with a production volume, with the share of that volume in the total volume of all suppliers, so that these inputs add up to the product of the market; a single supplier without volume supplies everything. '
     'An input of an activity that is split over several markets is replaced by inputs that add up to it and keep its other attributes. '
     'The volume of a market is what its suppliers have left after activity links, minus the links to the market itself, never negative; nothing else changes.',
     'all databases with any number of markets, suppliers and volumes, including suppliers without volume and links larger than the volumes',
     'tests use two or three suppliers with round volumes; sums over any number of suppliers are not sampled',
     [T + 'locations/markets.py'],
     [('allocate_suppliers, allocate_all_market_suppliers, update_market_production_volumes, annotate_exchange, delete_suppliers_list', T + 'locations/markets.py')],
     'Every obligation proved for all inputs; reals for floats; exchanges of a dataset have distinct ids; volumes of market groups are bounded (C25).')

prop('C15', 'Locations form an algebra of areas with a resolvable rest of the world',
     'A place contains another exactly if it covers all of its area, the rest of the world is the world without the given places, and empty areas contain nothing and are contained nowhere. '
     'The places within a place are exactly those it covers; places are ordered by size, whatever the order of the data; overlaps are found; old and new names of places mean the same area. '
     'Several global datasets, and market groups for the rest of the world, are refused.',
     'all places, sets of places to subtract and definitions of the rest of the world',
     'the tests check some dozens of pairs of places',
     [T + 'locations/_topology.py', T + 'locations/validation.py', T + 'locations/market_groups.py'],
     [('Topology.contains, contained, resolve_row, overlaps, ordered_dependencies', T + 'locations/_topology.py'),
      ('check_single_global_dataset', T + 'locations/validation.py'), ('check_no_row_market_groups', T + 'locations/market_groups.py')],
     'Proved: the refusals. Bounded, labelled so: the set algebra, evaluated over 23 places of the real geographic data.')

prop('C16', 'Activity codes are unique, and links by code lead to the one matching activity',
     'Each dataset gets a code that is a function of name, reference product, unit, location and dates (ignoring case); two datasets that agree in all of them stop the model, so codes identify datasets. '
     'An activity link becomes the code of the one dataset with the linked id that makes the linked product, an unlinked input of recycled content the code of its only producer, and the reference product the code of its dataset; ambiguous links are left alone. '
     'Exactly the technosphere inputs that are still unlinked at the end are deleted, and nothing else changes.',
     'all databases with any number of datasets, exchanges and links, including ambiguous ones',
     'tests use two or three datasets; uniqueness and resolution quantify over all pairs of datasets',
     [T + 'identifying.py', T + 'utils.py', T + 'locations/linking.py'],
     [('add_unique_codes', T + 'identifying.py'), ('activity_hash, copy_original_exchange_id', T + 'utils.py'),
      ('actualize_activity_links, link_consumers_to_recycled_content_activities, add_reference_product_codes, log_and_delete_unlinked_exchanges', T + 'locations/linking.py')],
     'All obligations proved for all inputs, except activity_hash itself (strings and MD5), which is bounded and used as a function of the six fields.')

prop('C17', 'Validation gates stop exactly the data they are documented to stop',
     'Each gate raises its documented error exactly when the data breaks its rule: duplicate dataset or exchange ids, wrong numbers of reference products, markets with several products or with their own input, missing mandatory properties, '
     'missing or zero production volumes, several global datasets, RoW market groups, unmergeable co-products, duplicate variable names. '
     'Valid data passes and comes back unchanged; a failing gate changes nothing either.',
     'all lists of datasets with any exchanges, ids, locations, types and amounts',
     'each gate is tested with one good and one bad fixture',
     [T + 'validation.py', T + 'cutoff/validation.py', T + 'locations/validation.py', T + 'locations/market_groups.py', T + 'parameterization/validation.py'],
     [('gates', T + 'validation.py'), ('valid_merge_datasets, valid_combined_production_activity', T + 'cutoff/validation.py'),
      ('check_single_global_dataset', T + 'locations/validation.py'), ('check_no_row_market_groups', T + 'locations/market_groups.py'),
      ('variable_names_are_unique', T + 'parameterization/validation.py')],
     'Proved for all inputs, except variable_names_are_unique, which is checked on bounded inputs.')

prop('C09', 'Activity links resolve uniquely and reserve exactly the volume they consume',
     'An activity link is accepted only if its target exists and has exactly one product of that name; any other link stops the model. '
     'Each product then carries, as claimed volume, exactly the total over all links resolving to it of link amount times the linking activity\'s ratio of production volume to amount (links of a dataset to itself ignored), '
     'and the volume available from a transforming activity is what the claims leave, never negative, with the original kept. Links to a parent dataset lead to its child, known broken links are removed, and nothing else changes.',
     'all databases: any number of datasets, exchanges and links between them, including many links to one product, self-links and dangling links',
     'the tests use two or three datasets with one link each; sums over many links and ambiguous names are not sampled',
     [T + 'activity_links.py', T + 'utils.py'],
     [('check_activity_link_validity, add_hard_linked_production_volumes, update_transforming_activity_production_volumes, '
       'update_activity_link_parent_child, fix_35_activity_links', T + 'activity_links.py'),
      ('get_biggest_pv_to_exchange_ratio', T + 'utils.py')],
     'Every obligation proved for all inputs; ids of datasets distinct; the ratio is used through its own proved contract (C03, C09).')
prop('C23', 'Constrained markets swap products and inputs consistently',
     'For each constrained exchange the byproduct becomes an input, the reference product of the linked activity becomes an input, and the matching input of that activity becomes its product, each with opposite sign of amount and formula. '
     'Activity links to such constrained activities are dropped and all other links kept. Nothing else changes.',
     'all databases with any number of constrained markets, links and exchanges',
     'tests use one constrained market and one linked activity',
     [T + 'consequential/constrained_markets.py'],
     [('handle_constrained_markets, delete_activity_links_to_constrained_markets, flip_exchange', T + 'consequential/constrained_markets.py')],
     'Dropping links and flipping exchanges proved for all inputs; handle_constrained_markets, which writes to other datasets than the one it iterates over, is bounded.', over=['inputs'])

prop('C24', 'Consequential markets keep only suppliers with the best technology',
     'Of the suppliers of a market exactly those with the best technology level present stay, and at least one. '
     'An undefined level becomes current after conflicts are logged. '
     'A byproduct that no activity makes as its product stops the model; nothing else is changed.',
     'all databases with any number of markets, suppliers and levels',
     'tests use a few suppliers in one market',
     [T + 'consequential/market_linking.py', T + 'consequential/technology_levels.py', T + 'consequential/byproducts.py'],
     [('prune_suppliers_by_technology_level', T + 'consequential/market_linking.py'),
      ('switch_undefined_to_current, log_conflicting_technology_levels, cleanup_technology_levels', T + 'consequential/technology_levels.py'),
      ('ensure_byproducts_have_alternative_production', T + 'consequential/byproducts.py')],
     'Every obligation proved for all inputs; the order of the two functions of cleanup_technology_levels is read from the object.')


prop('C29', 'Reading ecospold2 files takes over every dataset with all of its data',
     'Every dataset of every file is read once, with its attributes and with each exchange, property, production volume and parameter: names, amounts, units, types, links, classifications, uncertainty with pedigree scores, variables and formulas, each without surrounding whitespace. '
     'Nothing is invented, optional elements are left out if they are missing, and the result is of the internal data format. '
     'Reading files in parallel gives the same.',
     'all elements of ecospold2 files with any combination of optional attributes and children',
     'the tests read three fixed files',
     ['ocelot/io/extract_ecospold2.py', 'ocelot/io/ecospold2_meta.py'],
     [('extract_exchange, extract_property, extract_parameter, extract_production_volume, extract_uncertainty, extract_pedigree_matrix, extract_ecospold2_dataset', 'ocelot/io/extract_ecospold2.py'),
      ('tables of codes', 'ocelot/io/ecospold2_meta.py')],
     'Proved for all inputs, element by element, with stand-ins for the XML elements of lxml. Bounded, labelled so: files, on random files read with the real lxml.')

prop('C30', 'Export to Brightway2 keeps every amount and link',
     'Each dataset of a linked database becomes one activity with the same identity and the product, unit and production amount of its reference product. '
     'Its exchanges are exactly the exchanges that have an amount, except unlinked refinery gas: production and inputs keep amount and link, byproducts become negative inputs, flows from and to nature keep amount, name, unit and compartment. '
     'Datasets without exactly one product are refused and the database itself is not changed.',
     'all linked databases with any number of datasets and exchanges of every type',
     'the repository has no test for the export',
     ['ocelot/io/brightway2.py'],
     [('Brightway2Converter.convert_to_brightway2, translate_activity', 'ocelot/io/brightway2.py')],
     'All obligations proved for all inputs; reals for floats.')


prop('C26', 'A system model applies exactly the configured steps, each once and in order',
     'Running a configuration applies each of its functions, nested collections included, to the result of the one before, once and in order, and returns and saves the last result. '
     'Wrapping a function so that it runs on each dataset, or putting functions into a collection, changes nothing about the result: every dataset (or every one the filter selects) passes once, unselected ones stay as they are, and results are joined in order. '
     'Following one activity records its datasets after each function and alters nothing.',
     'all functions and data, any number and nesting of functions; runs of the whole model bounded',
     'tests run two or three toy functions; composition quantifies over every sequence and every list of datasets',
     ['ocelot/model.py', 'ocelot/collection.py', 'ocelot/transformations/wrapper.py', 'ocelot/filesystem.py'],
     [('apply_transformation, system_model', 'ocelot/model.py'), ('Collection', 'ocelot/collection.py'),
      ('TransformationWrapper', 'ocelot/transformations/wrapper.py'), ('save_intermediate_result, save_specific_dataset', 'ocelot/filesystem.py')],
     'Wrapper and collection proved for all functions and data; system_model, which writes files and logs, is bounded.', over=['inputs', 'histories'])

prop('C27', 'Intermediate results are saved exactly where the save strategy says',
     'A number n saves every n-th result, a:b every result from a to b, a:b:c every c-th of them beginning with a, nothing given every result of the default period. '
     'Exactly those are saved and no others. Numbers below one, steps of zero and any other text are refused.',
     'all whole numbers in the strategy and all positions of results',
     'tests probe a few positions for a few strategies',
     ['ocelot/results.py'],
     [('SaveStrategy', 'ocelot/results.py')],
     'Proved for all numbers in strategies of the documented forms; refusal of other text is bounded.')

prop('C28', 'Cached data are used only while they are newer than their source',
     'A cache counts as fresh exactly if it exists and is newer than the source directory and each of its visible files. '
     'Extraction returns the cached data if they are fresh and wanted, extracts and caches otherwise, and leaves the cache alone if it is switched off. '
     'Each directory has its own cache, which an extractor of another version does not use, and file names made from text are distinct and stay in their directory.',
     'all directories with any number of files, all times; names bounded',
     'the tests look at one directory with a few files',
     ['ocelot/filesystem.py', 'ocelot/io/__init__.py'],
     [('check_cache_directory, get_cache_filepath_for_data_path, cache_data, get_from_cache, safe_filename', 'ocelot/filesystem.py'), ('extract_directory', 'ocelot/io/__init__.py')],
     'Freshness and extraction proved for all inputs, with the operating system replaced by stand-ins; names and pickles (MD5, files) bounded.', over=['inputs', 'histories'])

prop('C31', 'The report shows every applied function with its counts and changes',
     'The log of a run has the start and end of each function in order with the numbers of datasets before and after. '
     'The report made from it lists every function once, in order, with those counts and with exactly the table or list of changes the function logged.',
     'all configurations of functions which log tables or lists, any data (bounded)',
     'the tests parse one recorded log',
     ['ocelot/report.py', 'ocelot/logger.py', 'ocelot/model.py'],
     [('HTMLReport', 'ocelot/report.py'), ('create_log', 'ocelot/logger.py'), ('apply_transformation', 'ocelot/model.py')],
     'Bounded: contracts executed on generated runs (files, JSON and templates are outside of the verifier).', level='exploration', over=['inputs', 'histories'])

prop('C32', 'Cleaning up deletes exactly the reports older than a week',
     'Cleaning up the output directory deletes every directory in it that is more than a week old. '
     'Files, newer directories and everything elsewhere are kept.',
     'all output directories with any number of entries of any age',
     'there is no test; every entry and age counts',
     ['ocelot/io/cleanup.py'],
     [('cleanup_data_directory', 'ocelot/io/cleanup.py')],
     'Proved for all inputs, with the operating system replaced by stand-ins which record what is deleted.', over=['inputs', 'histories'])

prop('C07', 'Combined production is split into parts whose amounts follow from formulas',
     'Splitting gives one dataset for each product that is made, in which this product is fixed without formula and uncertainty, the other products have amount zero, and every formula has the value that follows from that. '
     'Each part is then allocated by the procedure for its kind; parts making the same product are merged into one, whose exchanges have the sum of the amounts. '
     'Parts which still have useful byproducts are not merged but refused, and the source dataset is not changed.',
     'all datasets with any number of products and exchanges; formulas and merging bounded',
     'the test suite skips this (the interpreter does not run under pytest); tests split one dataset by hand',
     [T + 'cutoff/combined.py', T + 'cutoff/validation.py', T + 'consequential/combined.py'],
     [('combined_production, selected_product, handle_split_dataset, add_exchanges, merge_byproducts, combined_production_with_byproducts, combined_production_without_products', T + 'cutoff/combined.py'),
      ('valid_merge_datasets', T + 'cutoff/validation.py'), ('split_combined_production', T + 'consequential/combined.py')],
     'Proved for all inputs: splitting, choice of procedure, composition, adding, refusals. Bounded, labelled so: values of formulas (external interpreter) and groups of parts to be merged.')

prop('C14', 'Inputs are linked to the markets of the consumer, sharing by volume',
     'An unlinked input is supplied by the largest markets and market groups within the area of the consumer that do not overlap, markets before groups, or if there are none by the smallest one around it. '
     'They share it by production volume, and the shares add up and keep all other attributes. '
     'Linked inputs and market groups are not changed, and a product without a market stops the model, except refinery gas.',
     'all databases of markets, groups and consumers with all locations of the geographic data',
     'the tests use single configurations of a few places',
     [T + 'locations/linking.py', T + 'locations/markets.py'],
     [('link_consumers_to_markets', T + 'locations/linking.py'), ('allocate_suppliers', T + 'locations/markets.py')],
     'Proved: sharing and splitting of an input. Bounded, labelled so: the choice of suppliers, on databases of up to some 20 datasets over 23 places.', level='exploration')

prop('C20', 'Recalculating gives every formula the value of its expression',
     'After recalculating a dataset each exchange, production volume, property and parameter with a formula has the value of that formula, given the values of all named variables of the dataset, evaluated in the order of their dependencies; a division by zero makes it zero. '
     'Its uncertainty distribution is repaired around the new value; objects without formula and everything else are kept. '
     'Datasets with circular references, unknown or unusable names are left as they are.',
     'all datasets with any number of parameterised objects; formulas of arithmetic and conditions bounded',
     'the test suite skips most of this (the interpreter does not run under pytest)',
     [T + 'parameterization/recalculation.py', T + 'utils.py'],
     [('recalculate, recalculate_all_parameterized_datasets, extract_named_parameters, TolerantParameterSet', T + 'parameterization/recalculation.py'),
      ('iterate_all_parameters, iterate_all_uncertainties', T + 'utils.py')],
     'Proved for all inputs: which objects get which value and that nothing else changes, with stand-ins for the interpreter. Bounded, labelled so: values of formulas and order, with the real interpreter (asteval, bw2parameters).')

prop('C25', 'Market groups are supplied by the markets in them and sum up their volumes',
     'A market group is supplied by the largest markets and groups of its product within its area that do not overlap, never by itself, each recorded with its product, location and code. '
     'Its volume is the sum of the volumes of its suppliers minus the links to it, whatever the nesting of the groups, and it gets inputs in proportion to them. '
     'Groups of one product with different names are refused and nothing else changes.',
     'all databases of markets and market groups with all locations of the geographic data',
     'the tests use single configurations of a few places',
     [T + 'locations/market_groups.py', T + 'locations/markets.py'],
     [('link_market_group_suppliers', T + 'locations/market_groups.py'), ('update_market_production_volumes, allocate_all_market_suppliers', T + 'locations/markets.py')],
     'Bounded, not proved: sets of faces computed from geographic data are outside the reach of the verifier.', level='exploration')


prop('C21', 'Rewriting a formula keeps its meaning and reaches every formula',
     'The rewriting of formulas (lower case, reserved words, math symbols, known ecoinvent errors) is applied to every formula and variable of each exchange, production volume, property and parameter, and to nothing else. '
     'A formula of ecoinvent syntax has the same value afterwards as before, evaluated as Python, and names stay consistent between formulas and variables. '
     'Only formulas which cannot be parsed are deleted.',
     'all data: any number of datasets, exchanges, properties and parameters with any formula or variable; the meaning of formulas bounded',
     'tests rewrite a few fixed formulas and miss nestings, prefixes and combinations of names',
     [T + 'parameterization/python_compatibility.py', T + 'parameterization/implicit_references.py', T + 'parameterization/known_ecoinvent_issues.py',
      T + 'parameterization/__init__.py', T + 'utils.py'],
     [('lowercase_all_parameters, replace_reserved_words, fix_math_formulas, delete_unparsable_formulas', T + 'parameterization/python_compatibility.py'),
      ('fix_specific_ecoinvent_issues', T + 'parameterization/known_ecoinvent_issues.py'),
      ('iterate_all_parameters', T + 'utils.py')],
     'Proved for all inputs: which objects are rewritten how, with the regular expressions as uninterpreted functions where they are not modelled. Bounded, labelled so: meaning of formulas, on random formulas against an own evaluator.')


prop('C22', 'Markets in the cutoff model are positive and free of constrained by-products',
     'A market for anything but waste whose exchanges are all not positive has the signs of all of them flipped; if only its product is negative, exactly the exchanges with the name of the product are flipped. '
     'The conditional by-products of a constrained market become dropped products of amount zero, without formula, volume and uncertainty, and the market stays in the data. '
     'All other datasets, exchanges and attributes are unchanged.',
     'all lists of datasets with any number of exchanges of any sign, classification and uncertainty',
     'the tests flip a few fixed markets; the function for constrained markets is only called with a stand-in',
     [T + 'cutoff/markets.py', T + 'cutoff/allocation.py', T + 'uncertainty/__init__.py'],
     [('adjust_market_signs_for_allocatable_products, constrained_market_allocation', T + 'cutoff/markets.py'),
      ('ALLOCATION_METHODS', T + 'cutoff/allocation.py')],
     'Every obligation proved for all inputs of the schema, against the contract of scaling; reals for floats.')


prop('C33', 'A complete system model delivers linked datasets and loses no burdens',
     'After a complete run of a system model every dataset has a code of its own and one reference product of one unit, negative for wastes only; every technosphere input comes from a dataset that makes it (the named one, if an activity link names it), markets share by production volume and add up, uncertainty follows amounts, and formulas can be evaluated. '
     'In the cutoff model no by-products are left: emissions and inputs of each activity are split among its products without loss, and wastes and recyclables are inputs of those who produce them; in the consequential model exchanges are those of the activity per unit of its product and markets use the best technology. '
     'Flawed data stop the run with the documented error.',
     'undefined datasets of up to three products with producers, markets, joint production, constrained markets, links, formulas and flaws; runs of the whole model bounded',
     'the tests never run a whole configuration; defects of order and interplay between steps show in complete runs only',
     ['ocelot/configuration.py', 'ocelot/model.py', T + 'cutoff/__init__.py', T + 'consequential/__init__.py', T + 'locations/__init__.py', T + 'locations/linking.py'],
     [('cutoff_config, cutoff_config_ecoinvent_row, consequential_config', 'ocelot/configuration.py'),
      ('link_markets_by_pv', T + 'locations/__init__.py'), ('flip_non_allocatable_byproducts', T + 'cutoff/wastes.py')],
     'Bounded, not proved: contracts on whole runs of some fifty functions over small made-up systems. The steps are proved one by one under the other properties.', level='exploration')
