"""Which parts of the contract state which property.

An entry names functions of the contract (`Class.name`, `Class.name=` for setters, `Class.*`, `module:func`), optionally
restricted to the effects that matter for the property: `+a,b` keeps only effects on these names, `-a,b` drops them.
Every resolution of the name for a class of the library is an obligation, so overriding it anywhere is covered too."""

STR = ('__str__', '__repr__', '_repr_html_', '_short', 'build_pydot', 'plot')

INPLACE = ('ilshift', 'irshift', 'ixor', 'ipow', 'ifloordiv', 'isub', 'ior', 'itruediv', 'idiv', 'iand', 'imod', 'iadd', 'imul',
           'imatmul')

PROPS = {
    'C01': dict(units=['ObsAr.__setitem__', 'ObsAr.__setslice__'] + ['ObsAr.__%s__' % o for o in INPLACE]),
    'C02': dict(units=['Observable.notify_observers', 'Observable.add_observer', 'Observable.set_updates', 'Observable.__init__',
                       'ObserverList.__init__', 'ObserverList.add', 'ObserverList.flush', 'ObserverList.__iter__',
                       'ObserverList.__len__', 'ObserverList.__getitem__']),
    'C03': dict(units=['Observable.add_observer', 'Observable.remove_observer', 'Observable.change_priority',
                       'Observable.notify_observers', 'ObserverList.__init__', 'ObserverList.add', 'ObserverList.remove',
                       'ObserverList.flush', 'ObserverList.__iter__', 'ObserverList.__len__', 'ObserverList.__getitem__']),
    'C04': dict(units=['OptimizationHandlable._trigger_params_changed', 'Updateable.trigger_update',
                       'Parameterizable._parameters_changed_notification', 'Parameterizable._pass_through_notify_observers',
                       'Parameterizable._setup_observers', 'ObsAr._setup_observers', 'Param._setup_observers',
                       'Parameterized.__init__ +add_observer', 'Parameterized.link_parameter +add_observer',
                       'Parameterized.unlink_parameter +remove_observer', 'Parameterized.__setstate__',
                       'Parameterized.copy +_setup_observers,parameters_changed,notify_observers,_trigger_params_changed,copy',
                       'Pickleable.copy +_setup_observers,traverse,_trigger_params_changed,__deepcopy__',
                       'Param.is_fixed', 'Constrainable.is_fixed', 'Observable.notify_observers', 'ParameterIndexOperations.size',
                       'Parameterizable.initialize_parameter +trigger_update,_connect_parameters']),
    'C05': dict(units=['Updateable.update_model', 'Updateable.toggle_update', 'Updateable.update_toggle', 'Updateable.trigger_update',
                       'Updateable.__init__', 'OptimizationHandlable.randomize +update_model', 'Observable.set_updates',
                       'Observable.__init__', 'Observable.notify_observers',
                       'Parameterizable.initialize_parameter +trigger_update,_model_initialized_', 'Model.optimize +update_model',
                       'Parentable._highest_parent_', 'ParametersChangedMeta.__call__ +_in_init_']),
    'C06': dict(units=['Parameterized.link_parameter -_connect_parameters,_connect_fixes,shift_right,update,add_observer,items',
                       'Parameterized.link_parameters', 'ArrayList.__contains__', 'ArrayList.index', 'Parentable.has_parent', 'Parentable._highest_parent_', 'Parentable.__init__',
                       'Parameterizable.traverse_parents', 'Parameterized.__init__ +size,parameters,_parent_,_parent_index_',
                       'Parameterizable.__init__ +size,parameters'],
                decls=['Parentable._parent_', 'Parentable._parent_index_']),
    'C07': dict(units=['Parameterized.unlink_parameter', 'Indexable._disconnect_parent', 'Parentable._disconnect_parent',
                       'Parameterizable._remove_parameter_name', 'ParameterIndexOperationsView.copy',
                       'ParameterIndexOperationsView.items', 'ParameterIndexOperationsView._filter_index',
                       'ParameterIndexOperations.copy', 'Observable.remove_observer', 'ObserverList.remove', 'ArrayList.__contains__',
                       'ArrayList.index']),
    'C08': dict(units=['Parameterized._connect_parameters', 'OptimizationHandlable._connect_parameters',
                       'OptimizationHandlable._propagate_param_grad', 'OptimizationHandlable.gradient_full',
                       'Parameterizable.param_array', 'Parameterizable.gradient', 'Parameterizable.gradient=', 'Param.param_array',
                       'Param.gradient', 'Param.gradient=', 'Param.values', 'ObsAr.values', 'Param.__new__', 'Param.__init__',
                       'Param.__array_finalize__', 'Parameterizable.__setstate__', 'Parameterizable.num_params', 'Param.num_params',
                       'Parameterized.__setstate__', 'Parameterizable.initialize_parameter +_connect_parameters,_model_initialized_',
                       'Parameterized.link_parameter +_connect_parameters,_notify_parent_change,size',
                       'Parameterized.unlink_parameter +_connect_parameters,_notify_parent_change,size,param_array,gradient',
                       'Parameterized.copy', 'Pickleable.copy', 'OptimizationHandlable.__init__', 'OptimizationHandlable.num_params']),
    'C09': dict(units=['ParameterIndexOperations.*', 'ParameterIndexOperationsView.*', 'index_operations:extract_properties_to_index',
                       'index_operations:combine_indices', 'index_operations:remove_indices', 'index_operations:index_empty',
                       'Indexable._offset_for', 'Indexable._parent_changed', 'Indexable._add_io', 'Indexable.add_index_operation',
                       'Indexable.remove_index_operation', 'Indexable._raveled_index', 'Indexable._raveled_index_for',
                       'Param._raveled_index', 'Param._raveled_index_for', 'IntArrayDict.__init__',
                       'lists_and_dicts:intarray_default_factory', 'Parameterizable._notify_parent_change',
                       'Parentable._notify_parent_change', 'Parentable._parent_changed', 'Indexable.__setstate__', 'Indexable.__init__',
                       'Indexable._add_to_index_operations', 'Indexable._remove_from_index_operations',
                       'Parameterized.link_parameter +shift_right,update,items,size,_notify_parent_change',
                       'Parameterized.unlink_parameter +shift_left,clear,size,_disconnect_parent,_notify_parent_change'],
                decls=['ParameterIndexOperations._offset']),
    'C10': dict(units=['Constrainable.constrain', 'Constrainable.unconstrain', 'Constrainable.constrain_positive',
                       'Constrainable.constrain_negative', 'Constrainable.constrain_bounded', 'Constrainable.unconstrain_positive',
                       'Constrainable.unconstrain_negative', 'Constrainable.unconstrain_bounded', 'Constrainable.__init__',
                       'Constrainable.constrain_fixed', 'Indexable._add_to_index_operations',
                       'Indexable._remove_from_index_operations', 'Indexable._add_io', 'Indexable._raveled_index',
                       'Param._raveled_index', 'ParameterIndexOperations.add', 'ParameterIndexOperations.remove',
                       'ParameterIndexOperations.__delitem__', 'ParameterIndexOperationsView.add',
                       'ParameterIndexOperationsView.remove', 'ParameterIndexOperations.properties',
                       'ParameterIndexOperationsView.properties', 'index_operations:combine_indices',
                       'index_operations:remove_indices'],
                decls=['transformations.__fixed__']),
    'C11': dict(units=['Constrainable.constrain_fixed', 'Constrainable.unconstrain_fixed', 'Constrainable._set_fixed',
                       'Constrainable._set_unfixed', 'Constrainable._ensure_fixes', 'Param._ensure_fixes',
                       'Constrainable._connect_fixes', 'Constrainable._has_fixes', 'Constrainable.is_fixed', 'Param.is_fixed',
                       'Indexable._remove_from_index_operations', 'Indexable._add_to_index_operations', 'Constrainable.constrain',
                       'Constrainable.unconstrain', 'Parameterizable.unfixed_param_array', 'OptimizationHandlable._size_transformed',
                       'Parameterized.link_parameter +_connect_fixes,update,shift_right',
                       'Parameterized.unlink_parameter +_connect_fixes',
                       'Parameterizable.initialize_parameter +_connect_fixes,_model_initialized_',
                       'Parameterized.__setstate__', 'Parameterized.copy', 'Pickleable.copy', 'Constrainable.__init__',
                       'Indexable._disconnect_parent', 'ParameterIndexOperations.shift_right', 'ParameterIndexOperations.shift_left'],
                decls=['transformations.__fixed__', 'transformations.FIXED', 'transformations.UNFIXED', 'Param._fixes_']),
    'C12': dict(units=['OptimizationHandlable.optimizer_array', 'OptimizationHandlable.optimizer_array=',
                       'OptimizationHandlable._transform_gradients', 'OptimizationHandlable._size_transformed',
                       'Parameterizable.unfixed_param_array', 'OptimizationHandlable.parameter_names_flat',
                       'Constrainable._has_fixes', 'OptimizationHandlable.__init__',
                       'ParameterIndexOperations.items', 'ParameterIndexOperationsView.items',
                       'ParameterIndexOperations.properties', 'ParameterIndexOperationsView.properties']),
    'C13': dict(units=['OptimizationHandlable.optimizer_array', 'OptimizationHandlable.optimizer_array=',
                       'Parameterizable._parameters_changed_notification', 'Pickleable.__setstate__', 'Parameterizable.__setstate__',
                       'Parameterized.__setstate__', 'Indexable.__setstate__', 'Constrainable.unconstrain', 'Constrainable.constrain',
                       'Constrainable.constrain_fixed', 'Constrainable.unconstrain_fixed', 'OptimizationHandlable.__init__',
                       'Parameterized.__init__', 'Parameterizable._setup_observers', 'Parameterized.copy', 'Pickleable.copy',
                       'Pickleable.__getstate__', 'Param._setup_observers', 'ObsAr._setup_observers',
                       'Parameterized.link_parameter +_connect_fixes,_connect_parameters,_optimizer_copy_transformed,add_observer',
                       'Parameterized.unlink_parameter +_connect_fixes,_connect_parameters,_optimizer_copy_transformed',
                       'Constrainable._connect_fixes', 'Constrainable._set_fixed', 'Constrainable._set_unfixed',
                       'Parameterizable.initialize_parameter', 'Parameterized._connect_parameters',
                       'Updateable.trigger_update', 'OptimizationHandlable._trigger_params_changed',
                       'Parameterizable._pass_through_notify_observers', 'OptimizationHandlable.randomize +optimizer_array,update_model']),
    'C14': dict(units=['Model._grads', 'Model._objective', 'Model._objective_grads', 'Model.objective_function',
                       'Model.objective_function_gradients', 'Model.__init__', 'OptimizationHandlable.optimizer_array=',
                       'OptimizationHandlable._transform_gradients'],
                decls=['Model._fail_count', 'Model._allowed_failures']),
    'C15': dict(units=['Model.optimize', 'Model.optimize_restarts', 'model:opt_wrapper', 'OptimizationHandlable.randomize',
                       'Optimizer.run', 'Optimizer.__init__', 'Optimizer.__getstate__']),
    'C16': dict(units=['Model._checkgrad', 'Gradcheckable.checkgrad', 'Gradcheckable._checkgrad', 'ParamConcatenation.checkgrad',
                       'Indexable._raveled_index_for_transformed', 'Indexable._raveled_index_for', 'Indexable._raveled_index',
                       'Indexable._offset_for', 'Param._raveled_index', 'Param._raveled_index_for', 'Parentable._highest_parent_',
                       'OptimizationHandlable._transform_gradients']),
    'C17': dict(units=['Cacher.__init__', 'Cacher.id', 'Cacher.combine_inputs', 'Cacher.prepare_cache_id', 'Cacher.add_to_cache',
                       'Cacher.ensure_cache_length', 'Cacher.__call__', 'Cacher.on_cache_changed', 'Cacher.reset',
                       'Cacher.disable_cacher', 'Cacher.enable_cacher', 'Cacher.__deepcopy__', 'Cacher.__getstate__',
                       'Cacher.__setstate__', 'Cache_this.__init__', 'Cache_this.__call__'], rules=['view_observers']),
    'C18': dict(units=['Cacher.__init__', 'Cacher.ensure_cache_length', 'Cacher.add_to_cache', 'Cacher.reset', 'Cacher.id',
                       'Cacher.disable_cacher', 'Cacher.enable_cacher', 'Cacher.__call__', 'Cacher.on_cache_changed',
                       'Cacher.prepare_cache_id', 'FunctionCache.*', 'Parameterizable.enable_caching',
                       'Parameterizable.disable_caching', 'Cache_this.__init__', 'Cache_this.__call__', 'Parameterizable.__init__']),
    'C19': dict(units=['Pickleable.pickle', 'Pickleable.__getstate__', 'Pickleable.__setstate__', 'ObsAr.__reduce__',
                       'ObsAr.__setstate__', 'Parameterizable.__setstate__', 'Parameterized.__setstate__', 'Indexable.__setstate__',
                       'ParameterIndexOperationsView.__getstate__', 'ParameterIndexOperationsView.__setstate__',
                       'Optimizer.__getstate__', 'Cacher.__getstate__', 'Cacher.__setstate__', 'paramz:_unpickle', 'paramz:load',
                       'Parameterizable.save', 'ObsAr.__new__', 'ObsAr.__array_finalize__', 'Param.__array_finalize__',
                       'Parameterizable._setup_observers', 'Param._setup_observers', 'ObsAr._setup_observers',
                       'Parameterizable.param_array', 'Parameterizable.gradient', 'Param.gradient', 'Logistic.__getnewargs__'], rules=['restored_parts']),
    'C20': dict(units=['Pickleable.copy', 'Pickleable.__deepcopy__', 'Parameterized.copy', 'Param.copy', 'Param.__deepcopy__',
                       'ObsAr.copy', 'ObsAr.__deepcopy__', 'ParameterIndexOperations.copy', 'ParameterIndexOperations.__deepcopy__',
                       'ParameterIndexOperationsView.copy', 'ParameterIndexOperationsView.__deepcopy__', 'Cacher.__deepcopy__',
                       'Parameterizable._setup_observers', 'Param._setup_observers', 'ObsAr._setup_observers',
                       'ParameterIndexOperationsView.items', 'ParameterIndexOperations.items', 'Pickleable.__getstate__',
                       'Pickleable.__setstate__', 'Parameterized.__setstate__', 'Parameterizable.__setstate__', 'Indexable.__setstate__']),
    'C21': dict(units=['Parameterizable._add_parameter_name', 'Parameterizable._remove_parameter_name', 'Parameterizable._name_changed',
                       'Nameable.name', 'Nameable.name=', 'Nameable.__init__', 'Nameable.hierarchy_name', 'Parameterizable.__init__',
                       'Parameterizable._notify_parent_change', 'Parameterized.link_parameter +_notify_parent_change,append,insert,_parent_',
                       'Parameterized.unlink_parameter +_remove_parameter_name', 'Parentable.has_parent',
                       'OptimizationHandlable.parameter_names', 'Param.parameter_names'],
                decls=['parameter_core._name_digit']),
    'C22': dict(units=['nameable:adjust_name_for_printing']),
    'C23': dict(units=[c + '.' + m for c in ('Logexp', 'Exponent', 'NegativeLogexp', 'NegativeExponent', 'Square', 'Logistic')
                       for m in ('f', 'initialize')] + ['Logistic.__init__', 'Logistic.__new__'],
                decls=['transformations._lim_val', 'transformations._log_lim_val', 'transformations._exp_lim_val',
                       'Logexp.domain', 'Exponent.domain', 'NegativeLogexp.domain', 'NegativeExponent.domain', 'Square.domain',
                       'Logistic.domain', 'domains._POSITIVE', 'domains._NEGATIVE', 'domains._BOUNDED', 'domains._REAL',
                       'NegativeLogexp.logexp'], rules=['transform_range']),
    'C24': dict(units=[c + '.' + m for c in ('Logexp', 'Exponent', 'NegativeLogexp', 'NegativeExponent', 'Square', 'Logistic')
                       for m in ('f', 'finv', 'gradfactor')] +
                ['Logexp.log_jacobian', 'Logexp.log_jacobian_grad', 'Exponent.log_jacobian', 'Exponent.log_jacobian_grad',
                 'NegativeExponent.log_jacobian', 'Transformation.gradfactor_non_natural', 'Transformation.log_jacobian', 'Transformation.log_jacobian_grad'],
                decls=['transformations._lim_val', 'transformations._log_lim_val', 'transformations._exp_lim_val', 'NegativeLogexp.logexp'],
                rules=['transform_calculus']),
    'C25': dict(units=['Transformation.__new__', 'Logistic.__new__', 'Logistic.__init__', 'Logistic.__getnewargs__'],
                decls=['Transformation._instance', 'Logistic._instances']),
    'C26': dict(units=[c + '.' + m for c in ('opt_tnc', 'opt_lbfgsb', 'opt_bfgs', 'opt_simplex', 'opt_SCG', 'Opt_Adadelta', 'RProp', 'Adam')
                       for m in ('__init__', 'opt')] + ['Optimizer.run', 'Optimizer.__init__', 'Optimizer.opt', 'Optimizer.__str__',
                                                       'optimization:get_optimizer', 'optimization:_check_for_climin']),
    'C27': dict(units=['scg:SCG', 'opt_SCG.opt']),
    'C28': dict(units=['VerboseOptimization.*', 'Model.optimize', 'verbose_optimization:exponents']),
    'C29': dict(units=['Parameterizable.traverse', 'Parameterizable._traverse', 'Parameterizable.traverse_parents',
                       'Parameterizable.__init__']),
    'C30': dict(units=['ParamConcatenation.*']),
    'C31': dict(units=['Parameterized.__setattr__', 'Parameterized.__setitem__', 'Parameterized.__getitem__',
                       'Parameterized.grep_param_names', 'Param.__getitem__', 'ObsAr.__setitem__', 'ParamConcatenation.__setitem__',
                       'ParamConcatenation.__getitem__', 'Param.gradient=', 'Parameterizable.gradient=', 'Param._indices',
                       'Updateable.trigger_update']),
    'C32': dict(units=['ParametersChangedMeta.__call__', 'Parameterizable.initialize_parameter', 'Parameterized.__init__',
                       'Model.__init__', 'Updateable.__init__', 'Parameterizable.__init__', 'Observable.__init__',
                       'OptimizationHandlable.__init__', 'Constrainable.__init__', 'Indexable.__init__', 'Parentable.__init__',
                       'Nameable.__init__', 'Gradcheckable.__init__', 'Pickleable.__init__', 'Updateable.trigger_update']),
    # '~' after a name: only what the function does is compared, not what it returns
    'C37': dict(units=[u + ' ~' for u in (
        'Parameterized.__str__', 'Parameterized._repr_html_', 'Parameterized._format_spec', 'Parameterized._short',
        'Parameterized.get_property_string', 'Parameterized._description_str', 'Parameterized.flattened_parameters',
        'Parameterized.grep_param_names', 'Param.__str__', 'Param._repr_html_', 'Param._format_spec', 'Param.__repr__',
        'Param._max_len_names', 'Param._max_len_values', 'Param._max_len_index', 'Param._indices', 'Param._description_str',
        'Param.get_property_string', 'Param.flattened_parameters', 'Param.parameter_names', 'Param.num_params',
        'Param._raveled_index', 'Param._raveled_index_for', 'Param.is_fixed', 'Param.values', 'ObsAr.values', 'Model.__str__', 'Model._repr_html_',
        'ParamConcatenation.__str__', 'ParamConcatenation.__repr__', 'ParamConcatenation.values', 'Nameable.hierarchy_name', 'Nameable.name',
        'OptimizationHandlable.parameter_names', 'OptimizationHandlable.parameter_names_flat', 'OptimizationHandlable.num_params',
        'OptimizationHandlable._size_transformed', 'Parameterizable.num_params', 'Constrainable._has_fixes', 'Constrainable.is_fixed',
        'Indexable._offset_for', 'Indexable._raveled_index', 'Indexable._raveled_index_for',
        'ParameterIndexOperations.items', 'ParameterIndexOperations.properties', 'ParameterIndexOperations.indices',
        'ParameterIndexOperations.size', 'ParameterIndexOperations.properties_for', 'ParameterIndexOperations.properties_dict_for',
        'ParameterIndexOperations.__str__', 'ParameterIndexOperationsView.items', 'ParameterIndexOperationsView.properties',
        'ParameterIndexOperationsView.indices', 'ParameterIndexOperationsView.size', 'ParameterIndexOperationsView.properties_for',
        'ParameterIndexOperationsView.properties_dict_for', 'ParameterIndexOperationsView.__getitem__', 'ParameterIndexOperationsView._filter_index',
        'ParameterIndexOperationsView.__str__', 'ObserverList.__str__', 'ObserverList.__repr__', 'Cacher.__str__', 'Transformation.__repr__',
        'nameable:adjust_name_for_printing')]),
    'C38': dict(units=[
        'Parameterized.__str__', 'Parameterized._format_spec', 'Parameterized.get_property_string', 'Parameterized._description_str',
        'Parameterized.flattened_parameters', 'Parameterized._short', 'Param.__str__', 'Param._format_spec', 'Param.__repr__',
        'Param._max_len_names', 'Param._max_len_values', 'Param._max_len_index', 'Param._indices', 'Param._description_str',
        'Param.get_property_string', 'Param.flattened_parameters', 'Param.parameter_names', 'Model.__str__', 'ParamConcatenation.__str__',
        'OptimizationHandlable.parameter_names', 'OptimizationHandlable.parameter_names_flat', 'Nameable.hierarchy_name',
        'ParameterIndexOperations.__str__', 'ParameterIndexOperationsView.__str__'] +
        [c + '.__str__' for c in ('Transformation', 'Logexp', 'Exponent', 'NegativeLogexp', 'NegativeExponent', 'Square', 'Logistic')]),
}

OMIT = {'C30': ('__str__', '__repr__'), 'C09': ('__str__',), 'C28': (), 'C18': ()}
