"""Static analyser for pyown: everything here reads source text; nothing imports or runs /repo."""
