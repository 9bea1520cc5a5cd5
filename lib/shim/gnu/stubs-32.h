/* the 32-bit stub list is not installed; nothing in it is needed */
