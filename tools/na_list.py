NA.update({
})
