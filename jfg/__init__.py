"""Static analyser for jaxfg: decides properties from the source text only."""
