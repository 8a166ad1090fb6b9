class GMixRangeError(Exception):
    def __init__(self, value=''):
        super().__init__(value)
        self.value = value


class GMixFatalError(Exception):
    def __init__(self, value=''):
        super().__init__(value)
        self.value = value


class BootPSFFailure(Exception):
    def __init__(self, value=''):
        super().__init__(value)
        self.value = value


class BootGalFailure(Exception):
    def __init__(self, value=''):
        super().__init__(value)
        self.value = value


class FFTRangeError(Exception):
    pass


class PSFFluxFailure(Exception):
    pass
