"""Abstract receivers interpreted together with the package (never imported or executed).

__sa_abs_ready / __sa_abs_consume / __sa_abs_eq / __sa_abs_len are answered by the analysis with every behaviour the
receiver contract allows.
"""
from frequenz.channels import Error, Receiver, ReceiverError, ReceiverStoppedError


class Src(Receiver):
    def __init__(self, tag):
        self.tag = tag

    async def ready(self):
        return await __sa_abs_ready(self)

    def consume(self):
        return __sa_abs_consume(self)

    def __len__(self):
        return __sa_abs_len(self)  # a receiver may be empty, hence falsy, at any time

    def __str__(self):
        return "src"  # different receivers may look the same

    def __repr__(self):
        return "src"


class HostileSrc(Src):
    def __eq__(self, other):
        return __sa_abs_eq(self, other)

    def __bool__(self):
        return __sa_abs_eq(self, None)

    def __len__(self):
        return 0


class SrcError(ReceiverError):
    def __init__(self, recv):
        super().__init__("error", recv)


class SrcStop(ReceiverStoppedError):
    pass


class SrcLibError(Error):
    def __init__(self, recv):
        super().__init__("error")
