SPECIFICATION MCSpec
CONSTANTS
 Mode = "cursor"
 Depth = 7
 Emit = TRUE
 Registrations = 2
INVARIANTS NothingBeforeLoad InList
PROPERTIES HandlesKeepTheirs LoadsTouchNothingElse OneSwitchAtATime OneRegistrationAtATime CursorsIndependent CursorsForward ResultsExact
ACTION_CONSTRAINT EmitScript
VIEW StateOnly
CHECK_DEADLOCK FALSE
