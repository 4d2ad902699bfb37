from .base import *

class ListSpecs(Specs):
    """stand-alone verification of common/linked_list.c: any object may contain lists"""
    kinds = []
    inline_in = {'common/linked_list.c': ('linked_list_init', 'linked_list_empty')}
    def __init__(self, program):
        super().__init__(program)
        self.ghost_sorts['$ll'] = PB
        register_lists(self)

    def valid_at(self, st, rec, p):
        if rec == 'linked_list':
            return And(p != NULL, Select(st['$ll'], p))
        return super().valid_at(st, rec, p)
