"""Exceptions by which operations and oracles end"""


class Violation(Exception):
    def __init__(self, kind: str, message: str):
        super().__init__(message)
        self.kind = kind
        self.message = message


class Skip(Exception):
    """The operation is not applicable in the present state"""


class SessionLost(Exception):
    """An operation failed and the workload gives up this session"""
