from __future__ import print_function
import numpy as np
import sys

def SCG(f, gradf, x, optargs=(), maxiters=500, max_f_eval=np.inf, xtol=None, ftol=None, gtol=None):
    if xtol is None:
        xtol = 1e-06
    if ftol is None:
        ftol = 1e-06
    if gtol is None:
        gtol = 1e-05
    sigma0 = 1e-07
    fold = f(x, *optargs)
    function_eval = 1
    fnow = fold
    gradnew = gradf(x, *optargs)
    function_eval += 1
    current_grad = np.dot(gradnew, gradnew)
    gradold = gradnew.copy()
    d = -gradnew
    success = True
    nsuccess = 0
    beta = 1.0
    betamin = 1e-15
    betamax = 1000000000000000.0
    status = 'Not converged'
    flog = [fold]
    iteration = 0
    while iteration < maxiters:
        if success:
            mu = np.dot(d, gradnew)
            if mu >= 0:
                d = -gradnew
                mu = np.dot(d, gradnew)
            kappa = np.dot(d, d)
            sigma = sigma0 / np.sqrt(kappa)
            xplus = x + sigma * d
            gplus = gradf(xplus, *optargs)
            function_eval += 1
            theta = np.dot(d, gplus - gradnew) / sigma
        delta = theta + beta * kappa
        if delta <= 0:
            delta = beta * kappa
            beta = beta - theta / kappa
        alpha = -mu / delta
        xnew = x + alpha * d
        fnew = f(xnew, *optargs)
        function_eval += 1
        Delta = 2.0 * (fnew - fold) / (alpha * mu)
        if Delta >= 0.0:
            success = True
            nsuccess += 1
            x = xnew
            fnow = fnew
        else:
            success = False
            fnow = fold
        flog.append(fnow)
        iteration += 1
        if success:
            if np.abs(fnew - fold) < ftol:
                status = 'converged - relative reduction in objective'
                break
            elif np.max(np.abs(alpha * d)) < xtol:
                status = 'converged - relative stepsize'
                break
            else:
                gradold = gradnew
                gradnew = gradf(x, *optargs)
                function_eval += 1
                current_grad = np.dot(gradnew, gradnew)
                fold = fnew
                if current_grad <= gtol:
                    status = 'converged - relative reduction in gradient'
                    break
        if Delta < 0.25:
            beta = min(4.0 * beta, betamax)
        if Delta > 0.75:
            beta = max(0.25 * beta, betamin)
        if nsuccess == x.size:
            d = -gradnew
            beta = 1.0
            nsuccess = 0
        elif success:
            Gamma = np.dot(gradold - gradnew, gradnew) / mu
            d = Gamma * d - gradnew
    else:
        status = 'maxiter exceeded'
    return (x, flog, function_eval, status)
