"""Contexts whose likelihoods are stand-ins: what the context does with them is observed."""


class Component:
    """Stand-in component: only a name in the instructions."""


def install(h, values=None, needs=None):
    """Make the likelihood type "StubLlh" available; returns the record of calls.

    values(name, index of the call of that likelihood) -> log likelihood; needs[component name] -> parameters it needs."""
    import appletree as apt
    import appletree.components as C

    calls = []

    class StubLlh:
        def __init__(self, name=None, **config):
            self.name, self._config = name, config
            self.components, self.needed_parameters = {}, set()

        def __getitem__(self, k):
            return self.components[k]

        def register_component(self, cls, name, file_name=None):
            self.components[name] = cls
            self.needed_parameters |= set((needs or {}).get(name, ())) | {name + "_rate"}

        def get_log_likelihood(self, key, batch_size, parameters):
            n = sum(1 for c in calls if c["name"] == self.name)
            v = values(self.name, n) if values else 0.0
            calls.append(dict(name=self.name, key=key, batch=batch_size, parameters=dict(parameters), value=v))
            return key, v

        def print_likelihood_summary(self, **k):
            pass

        lineage = {}

    h.patch(apt, "StubLlh", StubLlh)
    h.patch(C, "StubComp", Component)
    return calls


def instruct(llhs, copies=None, **more):
    """llhs: {likelihood: [components]}"""
    return {
        "configs": {},
        "likelihoods": {
            n: {"type": "StubLlh", "components": {c: "StubComp" for c in cs}, "copy_parameters": dict((copies or {}).get(n, {}))} for n, cs in llhs.items()
        },
        **more,
    }


class Store:
    """Contents of the chain files of a run."""

    def __init__(self):
        self.files = {}


def mcmc(h):
    """Replace the sampler and its file backend by ones whose samples and posteriors are unknown."""
    import emcee
    import h5py
    import numpy as np

    st = Store()
    st.samplers = []

    class Backend:
        def __init__(self):
            self.rows, self.logp, self.nwalkers, self.ndim, self.attrs = [], [], None, None, {}
            self.name = "mcmc"

        def reset(self, nwalkers, ndim):
            self.rows, self.logp, self.nwalkers, self.ndim = [], [], nwalkers, ndim
            self.attrs.update(nwalkers=nwalkers, ndim=ndim)

        @property
        def iteration(self):
            return len(self.rows)

    def hdf(filename, name="mcmc", read_only=False, **k):
        b = st.files.get(filename)
        if b is None:
            b = st.files[filename] = Backend()
        return b

    class File:
        def __init__(self, name, mode="r", **k):
            if name not in st.files:
                raise FileNotFoundError(name)
            self.b, self.mode = st.files[name], mode

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def __getitem__(self, k):
            assert k == "mcmc"
            return self.b

    class Sampler:
        def __init__(self, nwalkers, ndim, log_prob_fn, pool=None, moves=None, args=None, kwargs=None, backend=None, vectorize=False, blobs_dtype=None, parameter_names=None, **k):
            self.nwalkers, self.ndim, self.fn, self.moves = nwalkers, ndim, log_prob_fn, moves
            self.args, self.kwargs = args or [], kwargs or {}
            self.backend = backend if backend is not None else Backend()
            if self.backend.nwalkers is None:
                self.backend.reset(nwalkers, ndim)
            if (self.backend.nwalkers, self.backend.ndim) != (nwalkers, ndim):
                raise ValueError("the shape of the backend is incompatible with the shape of the sampler")
            self.parameter_names = {n: i for i, n in enumerate(parameter_names)} if isinstance(parameter_names, list) else parameter_names
            self.started = self.backend.iteration > 0
            st.samplers.append(self)

        @property
        def iteration(self):
            return self.backend.iteration

        def run_mcmc(self, initial_state, nsteps, **k):
            if initial_state is None and not self.started:
                raise ValueError("Cannot have `initial_state=None` if run_mcmc has never been called.")
            self.initial = initial_state
            self.started = True
            for _ in range(nsteps):
                i = len(self.backend.rows)
                u = f"{len(st.samplers)}_{i}"
                self.backend.rows.append([h.reals(f"s{u}_{w}_", self.ndim, lo=-100, hi=100) for w in range(self.nwalkers)])
                self.backend.logp.append(h.reals(f"p{u}_", self.nwalkers, lo=-100, hi=100))
            return "state"

        def get_chain(self, flat=False, thin=1, discard=0):
            r = self.backend.rows[discard + thin - 1 :: thin]
            return h.np_array([w for s in r for w in s]) if flat else h.np_array(r)

        def get_log_prob(self, flat=False, thin=1, discard=0):
            r = self.backend.logp[discard + thin - 1 :: thin]
            return h.np_array([w for s in r for w in s]) if flat else h.np_array(r)

        def get_last_sample(self):
            return self.backend.rows[-1]

        @property
        def flatchain(self):
            return self.get_chain(flat=True)

        @property
        def flatlnprobability(self):
            return self.get_log_prob(flat=True)

        @property
        def acceptance_fraction(self):
            return np.zeros(self.nwalkers)

        def get_autocorr_time(self, **k):
            return np.zeros(self.ndim)

    h.patch(emcee, "EnsembleSampler", Sampler)
    h.patch(emcee.backends, "HDFBackend", hdf)
    h.patch(h5py, "File", File)
    return st
