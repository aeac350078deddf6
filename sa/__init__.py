"""Static analysis of building3d: loader, abstract interpreter and property checks."""
