"""Runtime monitoring framework for Viscid (see /verif/DESIGN.md)"""
