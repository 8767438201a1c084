class PipelineOptions:
    _DEFAULTS = {"runner": None, "temp_location": None, "direct_num_workers": 1}

    def __init__(self, flags=None, **kwargs):
        self._options = dict(self._DEFAULTS)
        for f in flags or []:
            if f.startswith("--"):
                key, _, value = f[2:].partition("=")
                self._options[key] = value
        self._options.update(kwargs)

    def get_all_options(self, drop_default=False, **kwargs):
        return {
            k: v
            for k, v in self._options.items()
            if not (drop_default and v == self._DEFAULTS.get(k))
        }

    @classmethod
    def from_dictionary(cls, options):
        return cls(**options)

    def view_as(self, cls):
        return self
