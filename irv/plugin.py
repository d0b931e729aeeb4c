"""Hooks by which a specification takes part in the loop rule."""


class Plugin:
    def key(self, eng, st, fr):
        return None

    def active(self, eng, st, inst):
        return True

    def at_entry(self, eng, entry, inst):
        pass

    def havoc_node(self, eng, entry, H, inst, rid):
        return None

    def havoc(self, eng, entry, H, inst):
        pass

    def candidates(self, eng, entry, H, inst):
        return []

    def at_back(self, eng, H0, b, inst):
        return False

    def owns(self, eng, H0, b, inst, item):
        return False

    def progress(self, eng, H, b, inst):
        return False
