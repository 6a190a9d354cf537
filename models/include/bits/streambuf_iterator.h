// stream buffers are not modelled
