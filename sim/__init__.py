"""Deterministic simulation of the infomeasure library (see /verif/DESIGN.md)."""
