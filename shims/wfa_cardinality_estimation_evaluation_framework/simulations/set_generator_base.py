class SetGeneratorBase:
    def __iter__(self):
        raise NotImplementedError()

    @classmethod
    def get_generator_factory_with_num_and_size(cls, **kwargs):
        raise NotImplementedError()
