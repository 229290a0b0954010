import numpy as np
from numpy.linalg.linalg import LinAlgError
from . import optimization
from .parameterized import Parameterized
from .optimization.verbose_optimization import VerboseOptimization
import multiprocessing as mp

def opt_wrapper(args):
    m = args[0]
    kwargs = args[1]
    return m.optimize(**kwargs)

class Model(Parameterized):
    _fail_count = 0
    _allowed_failures = 10

    def __init__(self, name):
        super(Model, self).__init__(name)
        self.optimization_runs = []
        self.sampling_runs = []
        self.preferred_optimizer = 'lbfgsb'
        self.obj_grads = None

    def optimize(self, optimizer=None, start=None, messages=False, max_iters=1000, ipython_notebook=True, clear_after_finish=False, **kwargs):
        if self.is_fixed or self.size == 0:
            print('nothing to optimize')
            return
        if not self.update_model():
            print('updates were off, setting updates on again')
            self.update_model(True)
        if start is None:
            start = self.optimizer_array
        if optimizer is None:
            optimizer = self.preferred_optimizer
        if isinstance(optimizer, optimization.Optimizer):
            opt = optimizer
            opt.model = self
        else:
            optimizer = optimization.get_optimizer(optimizer)
            opt = optimizer(max_iters=max_iters, **kwargs)
        with VerboseOptimization(self, opt, maxiters=max_iters, verbose=messages, ipython_notebook=ipython_notebook, clear_after_finish=clear_after_finish) as vo:
            opt.run(start, f_fp=self._objective_grads, f=self._objective, fp=self._grads)
        self.optimizer_array = opt.x_opt
        self.optimization_runs.append(opt)
        return opt

    def optimize_restarts(self, num_restarts=10, robust=False, verbose=True, parallel=False, num_processes=None, **kwargs):
        initial_length = len(self.optimization_runs)
        initial_parameters = self.optimizer_array.copy()
        if parallel:
            try:
                pool = mp.Pool(processes=num_processes)
                obs = [self.copy() for i in range(num_restarts)]
                [obs[i].randomize() for i in range(num_restarts - 1)]
                jobs = pool.map(opt_wrapper, [(o, kwargs) for o in obs])
                pool.close()
                pool.join()
            except KeyboardInterrupt:
                print('Ctrl+c received, terminating and joining pool.')
                pool.terminate()
                pool.join()
        for i in range(num_restarts):
            try:
                if not parallel:
                    if i > 0:
                        self.randomize()
                    self.optimize(**kwargs)
                else:
                    self.optimization_runs.append(jobs[i])
                if verbose and len(self.optimization_runs) > initial_length:
                    print('Optimization restart {0}/{1}, f = {2}'.format(i + 1, num_restarts, self.optimization_runs[-1].f_opt))
            except Exception as e:
                if robust:
                    print('Warning - optimization restart {0}/{1} failed'.format(i + 1, num_restarts))
                else:
                    raise e
        if len(self.optimization_runs) > initial_length:
            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
            self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
        else:
            self.optimizer_array = initial_parameters
        return self.optimization_runs

    def objective_function(self):
        raise NotImplementedError('Implement the result of the objective function here')

    def objective_function_gradients(self):
        return self.gradient

    def _grads(self, x):
        try:
            self.optimizer_array = x
            self.obj_grads = self._transform_gradients(self.objective_function_gradients())
            self._fail_count = 0
        except (LinAlgError, ZeroDivisionError, ValueError):
            if self._fail_count >= self._allowed_failures:
                raise
            self._fail_count += 1
            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e+100, 1e+100)
        return self.obj_grads

    def _objective(self, x):
        try:
            self.optimizer_array = x
            obj = self.objective_function()
            self._fail_count = 0
        except (LinAlgError, ZeroDivisionError, ValueError):
            if self._fail_count >= self._allowed_failures:
                raise
            self._fail_count += 1
            return np.inf
        return obj

    def _objective_grads(self, x):
        try:
            self.optimizer_array = x
            obj_f, self.obj_grads = (self.objective_function(), self._transform_gradients(self.objective_function_gradients()))
            self._fail_count = 0
        except (LinAlgError, ZeroDivisionError, ValueError):
            if self._fail_count >= self._allowed_failures:
                raise
            self._fail_count += 1
            obj_f = np.inf
            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -10000000000.0, 10000000000.0)
        return (obj_f, self.obj_grads)

    def _checkgrad(self, target_param=None, verbose=False, step=1e-06, tolerance=0.001, df_tolerance=1e-12):
        if not self._model_initialized_:
            import warnings
            warnings.warn('This model has not been initialized, try model.inititialize_model()', RuntimeWarning)
            return False
        x = self.optimizer_array.copy()
        if not verbose:
            if target_param is None:
                transformed_index = np.arange(len(x))
            else:
                transformed_index = self._raveled_index_for_transformed(target_param)
                if transformed_index.size == 0:
                    print('No free parameters to check')
                    return True
            dx = np.zeros(x.shape)
            dx[transformed_index] = step * (np.sign(np.random.uniform(-1, 1, transformed_index.size)) if transformed_index.size != 2 else 1.0)
            f1 = self._objective(x + dx)
            f2 = self._objective(x - dx)
            gradient = self._grads(x)
            dx = dx[transformed_index]
            gradient = gradient[transformed_index]
            denominator = 2 * np.dot(dx, gradient)
            global_ratio = (f1 - f2) / np.where(denominator == 0.0, 1e-32, denominator)
            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
            if global_ratio is np.nan:
                global_ratio = 0
            return np.abs(1.0 - global_ratio) < tolerance or global_diff
        else:
            try:
                names = self.parameter_names_flat()
            except NotImplementedError:
                names = ['Variable %i' % i for i in range(len(x))]
            header = ['Name', 'Ratio', 'Difference', 'Analytical', 'Numerical', 'dF_ratio']
            max_names = max([len(names[i]) for i in range(len(names))] + [len(header[0])])
            float_len = 10
            cols = [max_names]
            cols.extend([max(float_len, len(header[i])) for i in range(1, len(header))])
            cols = np.array(cols) + 5
            header_string = ['{h:^{col}}'.format(h=header[i], col=cols[i]) for i in range(len(cols))]
            header_string = list(map(lambda x: '|'.join(x), [header_string]))
            separator = '-' * len(header_string[0])
            print('\n'.join([header_string[0], separator]))
            if target_param is None:
                target_param = self
            transformed_index = self._raveled_index_for_transformed(target_param)
            if transformed_index.size == 0:
                print('No free parameters to check')
                return True
            gradient = self._grads(x).copy()
            np.where(gradient == 0, 1e-312, gradient)
            ret = True
            for xind in zip(transformed_index):
                xx = x.copy()
                xx[xind] += step
                f1 = float(self._objective(xx))
                xx[xind] -= 2.0 * step
                f2 = float(self._objective(xx))
                if f1 > 1e-15 or f1 < -1e-15 or f2 > 1e-15 or (f2 < -1e-15):
                    df_ratio = np.abs((f1 - f2) / min(f1, f2))
                else:
                    df_ratio = 1.0
                df_unstable = df_ratio < df_tolerance
                numerical_gradient = (f1 - f2) / (2.0 * step)
                if np.all(gradient[xind] == 0):
                    ratio = f1 - f2 == gradient[xind]
                else:
                    ratio = (f1 - f2) / (2.0 * step * gradient[xind])
                difference = np.abs(numerical_gradient - gradient[xind])
                if np.abs(1.0 - ratio) < tolerance or np.abs(difference) < tolerance:
                    formatted_name = '\x1b[92m {0} \x1b[0m'.format(names[xind])
                    ret &= True
                else:
                    formatted_name = '\x1b[91m {0} \x1b[0m'.format(names[xind])
                    ret &= False
                if df_unstable:
                    formatted_name = '\x1b[94m {0} \x1b[0m'.format(names[xind])
                r = '%.6f' % float(ratio)
                d = '%.6f' % float(difference)
                g = '%.6f' % gradient[xind]
                ng = '%.6f' % float(numerical_gradient)
                df = '%1.e' % float(df_ratio)
                grad_string = '{0:<{c0}}|{1:^{c1}}|{2:^{c2}}|{3:^{c3}}|{4:^{c4}}|{5:^{c5}}'.format(formatted_name, r, d, g, ng, df, c0=cols[0] + 9, c1=cols[1], c2=cols[2], c3=cols[3], c4=cols[4], c5=cols[5])
                print(grad_string)
            self.optimizer_array = x
            return ret

    def _repr_html_(self):
        model_details = [['<b>Model</b>', self.name + '<br>'], ['<b>Objective</b>', '{}<br>'.format(float(self.objective_function()))], ['<b>Number of Parameters</b>', '{}<br>'.format(self.size)], ['<b>Number of Optimization Parameters</b>', '{}<br>'.format(self._size_transformed())], ['<b>Updates</b>', '{}<br>'.format(self._update_on)]]
        from operator import itemgetter
        to_print = ['<style type="text/css">\n.pd{\n    font-family: "Courier New", Courier, monospace !important;\n    width: 100%;\n    padding: 3px;\n}\n</style>\n'] + ['<p class=pd>'] + ['{}: {}'.format(name, detail) for name, detail in model_details] + ['</p>']
        to_print.append(super(Model, self)._repr_html_())
        return '\n'.join(to_print)

    def __str__(self, VT100=True):
        model_details = [['Name', self.name], ['Objective', '{}'.format(float(self.objective_function()))], ['Number of Parameters', '{}'.format(self.size)], ['Number of Optimization Parameters', '{}'.format(self._size_transformed())], ['Updates', '{}'.format(self._update_on)]]
        max_len = max(map(len, model_details))
        to_print = [''] + ['{0:{l}} : {1}'.format(name, detail, l=max_len) for name, detail in model_details] + ['Parameters:']
        to_print.append(super(Model, self).__str__(VT100=VT100))
        return '\n'.join(to_print)
