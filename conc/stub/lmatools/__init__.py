"""Stand-in for the lmatools package, which is not installed in this environment.

Only what glmtools imports is here, with the behaviour documented in lmatools:
coroutine priming, time framing (half-open frames), broadcasting, and 2-D histogram counting."""
