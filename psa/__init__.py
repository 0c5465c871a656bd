"""psa: path-sensitive abstract interpretation of psion's syntax trees."""
