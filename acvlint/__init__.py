"""Static analysis of the acv00 sources: deciding rules, one module per property family."""
