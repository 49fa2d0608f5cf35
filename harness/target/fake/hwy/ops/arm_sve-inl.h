// Simulated architecture: only target selection and dispatch are compiled.
